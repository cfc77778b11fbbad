//! User-defined additive sets.
use crate::sx;
use crate::util::*;
use nominals::*;

const SYM: [&str; 4] = ["a", "bb", "\u{416}", "\u{1F600}"];

fn with<const N: usize>(v: &[u64; 4]) -> AdditiveSet<N> {
    let mut a = [("", 0u128); N];
    let mut i = 0;
    while i < N {
        a[i] = (SYM[i], v[i] as u128);
        i += 1;
    }
    AdditiveSet::new(a)
}

/// Symbolic values, in strictly descending order.
fn greedy<T: Uint + TryFrom<u128>, const N: usize>() {
    let (vmax, nmax) = if sx::tier() == 0 { (11, 40) } else { (20, 90) };
    let x = sx::var(0, 0, nmax);
    let mut v = [0u64; 4];
    let mut i = 0;
    while i < N {
        v[i] = sx::pick(1 + i as u32, 0, vmax);
        if i > 0 && v[i] >= v[i - 1] {
            sx::assume(false);
        }
        i += 1;
    }
    let n = T::of(x as u128);
    let r = with::<N>(&v).try_format_nominal(n);
    if sx::fork((x == 0) as u64) == 1 {
        if N > 0 && v[N - 1] == 0 {
            return expect_text(&r, SYM[N - 1].as_bytes(), n);
        }
        return expect_err(&r, 0, n);
    }
    let mut t = Text::<400>::new();
    let mut rest = x;
    let mut i = 0;
    while i < N && v[i] > 0 {
        let mut k = sx::fork(rest / v[i]);
        rest %= v[i];
        while k > 0 {
            t.str(SYM[i]);
            k -= 1;
        }
        i += 1;
    }
    if sx::fork((rest == 0) as u64) == 1 {
        expect_text(&r, t.bytes(), n)
    } else {
        expect_err(&r, 2, n)
    }
}
fn greedy_n<T: Uint + TryFrom<u128>>(k: u32) {
    match k {
        0 => greedy::<T, 0>(),
        1 => greedy::<T, 1>(),
        2 => greedy::<T, 2>(),
        3 => greedy::<T, 3>(),
        _ => greedy::<T, 4>(),
    }
}
#[no_mangle]
pub fn h_additive() {
    let t = sx::job(6);
    let k = sx::job(4);
    by_type!(t, greedy_n, k)
}

/// A set that is not strictly descending is refused.
#[no_mangle]
pub fn h_additive_order() {
    let k = sx::job(3) as usize + 2;
    // arbitrary values: v[i] is built from two symbolic digits
    let mut v = [0u64; 4];
    let mut i = 0;
    let mut ok = true;
    while i < k {
        v[i] = sx::pick(1 + i as u32, 0, 3);
        ok &= i == 0 || v[i] < v[i - 1];
        i += 1;
    }
    sx::expect_panic(!ok);
    match k {
        2 => drop(with::<2>(&v)),
        3 => drop(with::<3>(&v)),
        _ => drop(with::<4>(&v)),
    }
    sx::check(ok, 1);
    sx::reach(1);
}

/// Symbols beyond the range of the smaller integer types.
fn wide<T: Uint + TryFrom<u128>>(zero: bool) {
    const V: [u128; 9] =
        [1 << 127, 100_000_000_000_000_000_000, (1 << 64) + 1, 1 << 40, 4_294_967_296, 70_000, 65_536, 256, 5];
    const S: [&str; 9] = ["A", "B", "\u{416}", "D", "E", "\u{4E00}", "G", "H", "i"];
    let mut t = Text::<600>::new();
    let n;
    let mut rest = 0;
    if T::MAX == 255 {
        // every value
        let x = sx::var(0, 0, 255);
        n = T::of(x as u128);
        rest = sx::fork(x % 5);
        let mut k = sx::fork(x / 5);
        if k == 0 && rest == 0 {
            t.str("0");
            rest = if zero { 0 } else { 9 };
        }
        while k > 0 {
            t.str("i");
            k -= 1;
        }
    } else {
        // up to a few of each symbol, and a remainder that may be nothing
        let mut acc = T::from(0u8);
        let mut room = u128::MAX;
        let mut any = false;
        let mut i = 0;
        while i < 9 {
            if V[i] <= T::MAX {
                let lim = room / V[i];
                let most = if i == 8 { 3 } else { 1 + sx::tier() as u128 };
                let k = sx::pick(i as u32, 0, if lim < most { lim as u64 } else { most as u64 });
                let mut j = 0;
                while j < k {
                    acc = acc.plus(T::of(V[i]));
                    t.str(S[i]);
                    j += 1;
                    any = true;
                }
                room = V[i] - 1;
                if i == 8 {
                    let x = sx::var(20, 0, 4);
                    acc = acc.plus(T::of(x as u128));
                    rest = sx::fork((x > 0) as u64);
                }
            } else {
                room = T::MAX;
            }
            i += 1;
        }
        if !any && rest == 0 {
            t.str("0");
            rest = if zero { 0 } else { 9 };
        }
        n = acc;
    }
    let mut a = [("0", 0u128); 10];
    let mut b = [("", 0u128); 9];
    let mut i = 0;
    while i < 9 {
        a[i] = (S[i], V[i]);
        b[i] = (S[i], V[i]);
        i += 1;
    }
    let r = if zero { AdditiveSet::new(a).try_format_nominal(n) } else { AdditiveSet::new(b).try_format_nominal(n) };
    match rest {
        0 => expect_text(&r, t.bytes(), n),
        9 => expect_err(&r, 0, n),
        _ => expect_err(&r, 2, n),
    }
}
#[no_mangle]
pub fn h_additive_wide() {
    let t = sx::job(6);
    let z = sx::job(2);
    by_type!(t, wide, z == 1)
}

/// Up to 65,537 of the largest symbol, then any two digits below it.
#[cfg(feature = "alloc")]
fn tall<T: Uint + TryFrom<u128>>(q: u32, unit: bool) {
    let (d, e) = (sx::var(1, 0, 9), sx::var(2, 0, 9));
    if T::MAX < q as u128 * 100 + 99 {
        sx::assume(false);
    }
    let n = T::of(q as u128 * 100).plus(T::of((d * 10 + e) as u128));
    const A: [(&str, u128); 2] = [("x\u{416}", 100), ("b", 10)];
    let r = if unit {
        AdditiveSet::new([A[0], A[1], ("i", 1)]).try_format_nominal(n)
    } else {
        AdditiveSet::new(A).try_format_nominal(n)
    };
    if !unit && sx::fork((e != 0) as u64) == 1 {
        return expect_err(&r, 2, n);
    }
    let b = match &r {
        Ok(s) => s.as_bytes(),
        Err(_) => {
            sx::check(false, 1);
            return;
        }
    };
    let mut one = Text::<600>::new();
    let mut i = 0;
    while i < 100 {
        one.str("x\u{416}");
        i += 1;
    }
    let mut end = Text::<600>::new();
    let mut k = sx::fork(d);
    while k > 0 {
        end.str("b");
        k -= 1;
    }
    k = if unit { sx::fork(e) } else { 0 };
    while k > 0 {
        end.str("i");
        k -= 1;
    }
    let len = q as usize * 3;
    sx::check(b.len() == len + end.len, 2);
    if b.len() != len + end.len {
        return;
    }
    let mut at = 0;
    while at < len {
        let m = if len - at < one.len { len - at } else { one.len };
        sx::eq(&b[at..at + m], &one.bytes()[..m], 3);
        at += m;
    }
    sx::eq(&b[len..], end.bytes(), 4);
    sx::emit(&b[len..]);
    sx::reach(1);
}
#[cfg(feature = "alloc")]
#[no_mangle]
pub fn h_additive_tall() {
    let t = sx::job(5);
    const Q: [u32; 9] = [255, 511, 4095, 32_768, 65_536, 65_537, 65_535, 131_072, 300_000];
    let q = Q[sx::job(if sx::tier() == 0 { 6 } else { 9 }) as usize];
    let k = sx::job(2);
    by_type!(t + 1, tall, q, k == 0)
}
