//! Relations between the ways of formatting: errors, the infallible form,
//! pointers, integer types.
use crate::sx;
use crate::systems::*;
use crate::util::*;
use nominals::*;

/// The decimal text of a number of which at most the value of one variable is
/// unknown.
fn decimal(n: u128) -> Text<40> {
    let mut len = 1;
    let mut p = 10u128;
    while len < 39 && sx::fork((n >= p) as u64) == 1 {
        len += 1;
        if len < 39 {
            p *= 10;
        }
    }
    let mut d = [0u8; 40];
    let mut x = n;
    let mut i = 0;
    while i < len {
        d[i] = (x % 10) as u8;
        x /= 10;
        i += 1;
    }
    let mut t = Text::new();
    while i > 0 {
        i -= 1;
        t.push(b'0' + d[i]);
    }
    t
}

/// Fallible and infallible form of every built-in system.
fn infallible<T: Uint>(k: u32, b: u32) {
    let s = Any(k);
    let lim = s.reasonable();
    let w = near(b, if lim < T::MAX { lim } else { T::MAX });
    let n = T::of(w);
    let r = s.run(n);
    let a = s.always(n);
    sx::emit(a.as_bytes());
    match &r {
        Ok(t) => {
            sx::reach(1);
            sx::eq(a.as_bytes(), t.as_bytes(), 1)
        }
        Err(e) => {
            let (kind, v) = err_kind(e);
            sx::reach(2 + kind);
            match v {
                Some(v) => sx::num(v, n, 2),
                None => sx::check(kind == 0 && n == T::from(0u8), 3),
            }
            let d = decimal(w);
            sx::eq(a.as_bytes(), d.bytes(), 4);
            sx::eq(e.into_decimal().as_bytes(), d.bytes(), 5);
        }
    }
    let u = r.unwrap_or_decimal();
    sx::eq(u.as_bytes(), a.as_bytes(), 6);
}
#[no_mangle]
pub fn h_infallible() {
    let k = sx::job(ALL);
    let t = sx::job(6);
    let b = sx::pick(9, 0, BLOCKS as u64 - 1) as u32;
    by_type!(t, infallible, k, b)
}

/// As above, over every number the system's reader covers.
fn infallible_all<T: Uint>(k: u32) {
    let s = Any(k);
    let x = match s.bijective() {
        // without a heap, longer texts fall back to a decimal of a number that
        // is not given by decimal digits
        Some(shift) if cfg!(not(feature = "alloc")) => bijective_to::<T>(0, s.base(), shift, 1 << 64),
        _ => digits_for::<T>(k),
    };
    let r = s.run(x.n);
    let a = s.always(x.n);
    sx::emit(a.as_bytes());
    match &r {
        Ok(t) => {
            sx::reach(1);
            sx::eq(a.as_bytes(), t.as_bytes(), 1);
        }
        Err(e) => {
            let (kind, v) = err_kind(e);
            sx::reach(2 + kind);
            let zero = x.len == 1 && sx::fork((x.d[0] == 0) as u64) == 1;
            match v {
                Some(v) => sx::num(v, x.n, 2),
                None => sx::check(kind == 0 && zero, 3),
            }
            if zero {
                sx::eq(a.as_bytes(), b"0", 4);
            } else {
                let mut d = Text::<200>::new();
                let mut i = x.len;
                while i > 0 {
                    i -= 1;
                    d.push(b'0' + x.d[i]);
                }
                sx::check(s.base() == 10, 7);
                sx::eq(a.as_bytes(), d.bytes(), 4);
            }
        }
    }
}
#[no_mangle]
pub fn h_infallible_all() {
    let k = sx::job(SYSTEMS);
    let t = sx::job(6);
    by_type!(t, infallible_all, k)
}

/// A system that gives whatever it is told to.
struct Told<T> {
    ok: bool,
    kind: u64,
    m: T,
    text: &'static str,
}
impl<T: Uint> NominalSystem<T> for Told<T> {
    fn try_format_nominal(&self, _: T) -> Result<NominalString, Error<T>> {
        if self.ok {
            Ok(NominalString::from(self.text))
        } else {
            Err(error(self.kind, self.m))
        }
    }
}
fn error<T: Uint>(kind: u64, m: T) -> Error<T> {
    match kind {
        0 => Error::NoZeroSymbol,
        1 => Error::OutOfMemory(m),
        _ => Error::OutOfBounds(m),
    }
}

fn helpers<T: Uint>() {
    let x = number::<T>(0, 10, u128::MAX);
    let m = x.n;
    let ok = sx::pick(200, 0, 1) == 1;
    let kind = sx::pick(201, 0, 2);
    let text = ["", "seven", "\u{4E03}"][sx::pick(202, 0, 2) as usize];
    let s = Told { ok, kind, m, text };
    let mut d = Text::<200>::new();
    if ok {
        d.str(text)
    } else if kind == 0 {
        d.push(b'0')
    } else {
        let mut i = x.len;
        while i > 0 {
            i -= 1;
            d.push(b'0' + x.d[i]);
        }
    }
    let n = T::from(7u8);
    sx::reach(1);
    let a = s.format_nominal(n);
    sx::emit(a.as_bytes());
    sx::eq(a.as_bytes(), d.bytes(), 1);
    sx::eq(n.to_nominal(&s).as_bytes(), d.bytes(), 2);
    sx::eq(s.try_format_nominal(n).unwrap_or_decimal().as_bytes(), d.bytes(), 3);
    match n.try_to_nominal(&s) {
        Ok(t) => {
            sx::check(ok, 4);
            sx::eq(t.as_bytes(), text.as_bytes(), 5);
        }
        Err(e) => {
            sx::check(!ok, 6);
            let (k, v) = err_kind(&e);
            sx::check(k as u64 == kind, 7);
            if let Some(v) = v {
                sx::num(v, m, 8);
            }
            sx::eq(e.into_decimal().as_bytes(), d.bytes(), 9);
            sx::check(e == error(kind, m), 10);
        }
    }
    let r: Result<u8, OutOfMemoryError> = if ok { Ok(5) } else { Err(OutOfMemoryError) };
    match r.with_nominal(m) {
        Ok(v) => sx::check(ok && v == 5, 11),
        Err(e) => {
            let (k, v) = err_kind(&e);
            sx::check(!ok && k == 1 && v == Some(m), 12)
        }
    }
}
#[no_mangle]
pub fn h_error_helpers() {
    let t = sx::job(6);
    by_type!(t, helpers)
}

/// Both forms chosen independently of each other.
#[cfg(feature = "alloc")]
mod pointers {
    use super::*;
    use alloc::boxed::Box;
    use alloc::rc::Rc;
    use alloc::sync::Arc;

    #[derive(Clone, Copy)]
    struct Custom {
        fallible: u64,
        k: u32,
    }
    impl<T: Uint> NominalSystem<T> for Custom {
        fn format_nominal(&self, n: T) -> NominalString {
            let mut s = NominalString::from("custom ");
            let _ = s.try_push_str(&Decimal.format_nominal(n));
            s
        }
        fn try_format_nominal(&self, n: T) -> Result<NominalString, Error<T>> {
            match self.fallible {
                3 => Any(self.k).run(n),
                k => Err(error(k, n)),
            }
        }
    }
    struct Plain(u64, u32);
    impl<T: Uint> NominalSystem<T> for Plain {
        fn try_format_nominal(&self, n: T) -> Result<NominalString, Error<T>> {
            match self.0 {
                3 => Any(self.1).run(n),
                k => Err(error(k, n)),
            }
        }
    }

    fn same<T: Uint, S: NominalSystem<T>>(p: &S, inner: &dyn NominalSystem<T>, n: T) {
        sx::reach(1);
        let (a, b) = (p.format_nominal(n), inner.format_nominal(n));
        sx::emit(a.as_bytes());
        sx::eq(a.as_bytes(), b.as_bytes(), 1);
        sx::eq(n.to_nominal(p).as_bytes(), b.as_bytes(), 2);
        let want = inner.try_format_nominal(n);
        let mut i = 0;
        while i < 2 {
            let got = if i == 0 { p.try_format_nominal(n) } else { n.try_to_nominal(p) };
            match (&got, &want) {
                (Ok(x), Ok(y)) => sx::eq(x.as_bytes(), y.as_bytes(), 3),
                (Err(x), Err(y)) => {
                    let ((k, v), (l, w)) = (err_kind(x), err_kind(y));
                    sx::reach(2);
                    sx::check(k == l, 4);
                    if let (Some(v), Some(w)) = (v, w) {
                        sx::num(v, w, 5);
                    }
                }
                _ => sx::check(false, 6),
            }
            i += 1;
        }
    }

    fn all<T: Uint>(fallible: u64, k: u32) {
        let lim = Any(k).reasonable();
        let n = T::of(near(sx::pick(9, 0, BLOCKS as u64 - 1) as u32, if lim < T::MAX { lim } else { T::MAX }));
        both::<T>(fallible, k, n, 5)
    }
    fn every<T: Uint>(fallible: u64, k: u32) {
        let n = digits_to::<T>(k, true).n;
        both::<T>(fallible, k, n, 2)
    }
    fn both<T: Uint>(fallible: u64, k: u32, n: T, kinds: u64) {
        let custom = Custom { fallible, k };
        let plain = Plain(fallible, k);
        if sx::pick(910, 0, 1) == 0 {
            let make = || Custom { fallible, k };
            check::<T, _>(make, &custom, n, kinds)
        } else {
            check::<T, _>(|| Plain(fallible, k), &plain, n, kinds)
        }
    }
    fn check<T: Uint, S: NominalSystem<T> + 'static>(make: impl Fn() -> S, inner: &dyn NominalSystem<T>, n: T, kinds: u64) {
        match sx::pick(911, 0, kinds) {
            0 => {
                let p: Box<dyn NominalSystem<T>> = Box::new(make());
                same(&p, inner, n)
            }
            1 => {
                let p: Rc<dyn NominalSystem<T>> = Rc::new(make());
                let q = p.clone();
                drop(p);
                same(&q, inner, n)
            }
            2 => {
                let p: Arc<dyn NominalSystem<T>> = Arc::new(make());
                let q = p.clone();
                drop(p);
                same(&q, inner, n)
            }
            3 => {
                let p: Box<dyn NominalSystem<T>> = Box::new(make());
                let p: Rc<dyn NominalSystem<T>> = Rc::new(p);
                same(&p, inner, n)
            }
            4 => {
                let p: Rc<dyn NominalSystem<T>> = Rc::new(make());
                let p: Arc<dyn NominalSystem<T>> = Arc::new(p);
                same(&p, inner, n)
            }
            _ => {
                let p: Arc<dyn NominalSystem<T>> = Arc::new(make());
                let p: Box<dyn NominalSystem<T>> = Box::new(p);
                same(&p, inner, n)
            }
        }
    }
    pub fn run() {
        let t = sx::job(6);
        let f = sx::job(8) as u64;
        // errors of every kind, and some real systems
        let k = [0, 21, 46, 47, 57][if f < 3 { 0 } else { f as usize - 3 }];
        let f = if f < 3 { f } else { 3 };
        by_type!(t, all, f, k)
    }
    pub fn run_all() {
        let t = sx::job(6);
        let f = sx::job(11) as u64;
        // errors of every kind, and one or two real systems of each sort
        let k = [0, 18, 41, 46, 47, 57, 58, 59][if f < 3 { 0 } else { f as usize - 3 }];
        let f = if f < 3 { f } else { 3 };
        by_type!(t, every, f, k)
    }
}
#[cfg(feature = "alloc")]
#[no_mangle]
pub fn h_pointers() {
    pointers::run()
}
#[cfg(feature = "alloc")]
#[no_mangle]
pub fn h_pointers_all() {
    pointers::run_all()
}

/// The same number in two integer types.
fn agree<T: Uint, U: Uint>(a: &Res<T>, b: &Res<U>) {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            sx::reach(1);
            sx::emit(x.as_bytes());
            sx::eq(x.as_bytes(), y.as_bytes(), 1)
        }
        (Err(x), Err(y)) => {
            sx::reach(2);
            let ((k, v), (l, w)) = (err_kind(x), err_kind(y));
            sx::check(k == l, 2);
            if let (Some(v), Some(w)) = (v, w) {
                sx::num(v.wide(), w.wide(), 3);
            }
        }
        _ => sx::check(false, 4),
    }
}
fn types_near<T: Uint>(k: u32) {
    let s = Any(k);
    let lim = s.reasonable();
    let b = sx::pick(9, 0, BLOCKS as u64 - 1) as u32;
    let w = near(b, if lim < T::MAX { lim } else { T::MAX });
    agree(&s.run(T::of(w)), &s.run(w))
}
#[no_mangle]
pub fn h_types_near() {
    let k = sx::job(ALL);
    let t = [0, 1, 2, 3, 5][sx::job(5) as usize];
    by_type!(t, types_near, k)
}

/// Numbers as digits in the radix of system `k`.
pub fn digits_for<T: Uint>(k: u32) -> Num<T> {
    digits_to(k, false)
}
#[inline(never)]
pub fn digits_to<T: Uint>(k: u32, small: bool) -> Num<T> {
    let s = Any(k);
    let lim = match k {
        47..=57 if small => [3_999, 9_999],
        47 | 48 => [99_999, 199_999],
        49..=57 => [99_999; 2],
        58..=64 => [99_999_999, 99_999_999_999],
        _ => [u128::MAX; 2],
    }[(sx::tier() != 0) as usize];
    if let (false, Some(unit)) = (small, s.largest()) {
        let m = sx::pick(899, 0, 8) as usize;
        if m > 0 {
            // many times the largest symbol, two free digits
            let m = [63, 64, 65, 127, 128, 255, 256, 300][m - 1];
            return after(unit * m / 100);
        }
    }
    match s.bijective() {
        Some(shift) => bijective_to::<T>(0, s.base(), shift, lim),
        None => number::<T>(0, s.base(), lim),
    }
}
/// The hundred numbers that start with the digits of `p`.
fn after<T: Uint>(p: u128) -> Num<T> {
    if p * 100 + 99 > T::MAX {
        sx::assume(false);
    }
    let mut d = [0u8; MAXD];
    let mut len = 2;
    let mut r = p;
    while r > 0 {
        d[len] = (r % 10) as u8;
        r /= 10;
        len += 1;
    }
    let (a, b) = (sx::var(2, 0, 9) as u32, sx::var(1, 0, 9) as u32);
    d[1] = a as u8;
    d[0] = b as u8;
    Num { n: T::of(p).mac(10, a).mac(10, b), d, len }
}
fn types<T: Uint>(k: u32) {
    same_digits(k, digits_for::<T>(k))
}
fn same_digits<T: Uint>(k: u32, x: Num<T>) {
    let s = Any(k);
    let base = s.base();
    // the same digits, summed up in the widest type
    let mut n = 0u128;
    let mut i = x.len;
    while i > 0 {
        i -= 1;
        let d = x.d[i] as u32;
        n = n.mac(base, if i == 0 && s.bijective() == Some(1) { d - 1 } else { d });
    }
    agree(&s.run(x.n), &s.run(n))
}
#[no_mangle]
pub fn h_types() {
    let k = sx::job(SYSTEMS);
    let t = [0, 1, 2, 3, 5][sx::job(5) as usize];
    by_type!(t, types, k)
}
#[no_mangle]
pub fn h_types_shape() {
    let k = sx::job(7) + 58;
    if sx::job(2) == 0 {
        same_digits(k, shaped::<u64>())
    } else {
        same_digits(k, shaped::<usize>())
    }
}
