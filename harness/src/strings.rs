//! `NominalString` against an ordinary growable string.
use crate::sx;
use crate::util::*;
use nominals::NominalString;
#[cfg(feature = "alloc")]
use alloc::string::String;

const CAP: usize = 62;
pub type Tx = Text<1000>;

pub struct S {
    s: NominalString,
    t: Tx,
    heap: bool,
}

/// A symbolic character of `w` UTF-8 bytes: all of them.
pub fn any_char(id: u32, w: usize, t: &mut Text<4>) -> char {
    let c = |k: u32| sx::var(id + k, 0, 63) as u32;
    let v = match w {
        1 => {
            let a = sx::var(id, 0, 127) as u32;
            t.push(a as u8);
            a
        }
        2 => {
            let (a, b) = (sx::var(id, 2, 31) as u32, c(1));
            t.push(0xC0 | a as u8);
            t.push(0x80 | b as u8);
            a * 64 + b
        }
        3 => {
            let (a, b, d) = (sx::var(id, 0, 15) as u32, c(1), c(2));
            // no overlong forms, no surrogates
            sx::assume(!(a == 0 && b < 32 || a == 13 && b >= 32));
            t.push(0xE0 | a as u8);
            t.push(0x80 | b as u8);
            t.push(0x80 | d as u8);
            a * 4096 + b * 64 + d
        }
        _ => {
            let (a, b, d, e) = (sx::var(id, 0, 4) as u32, c(1), c(2), c(3));
            sx::assume(!(a == 0 && b < 16 || a == 4 && b >= 16));
            t.push(0xF0 | a as u8);
            t.push(0x80 | b as u8);
            t.push(0x80 | d as u8);
            t.push(0x80 | e as u8);
            a * 262144 + b * 4096 + d * 64 + e
        }
    };
    unsafe { char::from_u32_unchecked(v) }
}

/// `l` symbolic ASCII bytes.
pub fn ascii(id: u32, l: usize, t: &mut Tx) {
    let mut i = 0;
    while i < l {
        t.push(sx::var(id + i as u32, 0, 127) as u8);
        i += 1;
    }
}

impl S {
    /// Outcome of an operation that adds `bytes` (at the front or the back).
    fn after(&mut self, ok: bool, bytes: &[u8], front: bool) {
        let fits = self.t.len + bytes.len() <= CAP;
        if cfg!(feature = "alloc") || fits {
            sx::check(ok, 10);
            if front {
                self.t.front(bytes)
            } else {
                self.t.bytes_of(bytes)
            }
            self.heap |= !fits;
        } else {
            sx::check(!ok, 11);
            sx::reach(2);
        }
    }
    fn push(&mut self, id: u32, w: usize) {
        let mut e = Text::new();
        let c = any_char(id, w, &mut e);
        let ok = self.s.try_push(c).is_ok();
        self.after(ok, e.bytes(), false)
    }
    fn push_front(&mut self, id: u32, w: usize) {
        let mut e = Text::new();
        let c = any_char(id, w, &mut e);
        let ok = self.s.try_push_front(c).is_ok();
        self.after(ok, e.bytes(), true)
    }
    fn push_str(&mut self, id: u32, l: usize) {
        let mut e = Tx::new();
        // symbolic at both ends
        let mut i = 0;
        while i < l {
            let v = if i < 4 || i + 4 >= l { sx::var(id + i as u32, 0, 127) as u8 } else { b'a' + i as u8 % 26 };
            e.push(v);
            i += 1;
        }
        let ok = self.s.try_push_str(e.as_str()).is_ok();
        self.after(ok, e.bytes(), false)
    }
    fn mutate(&mut self) {
        self.s.make_ascii_uppercase();
        let mut u = Tx::new();
        let mut i = 0;
        let b = self.t.bytes();
        while i < b.len() {
            let x = b[i];
            u.push(x - (x >= b'a' && x <= b'z') as u8 * 32);
            i += 1;
        }
        self.t = u;
    }
    #[cfg(feature = "alloc")]
    fn clone(&mut self) {
        let c = self.s.clone();
        let _ = self.s.try_push_front('!');
        self.s.make_ascii_uppercase();
        self.s = c;
    }
    fn same(&self) {
        sx::reach(1);
        sx::emit(self.s.as_bytes());
        sx::eq(self.s.as_bytes(), self.t.bytes(), 1);
        sx::check(self.s.is_inline() != self.heap, 12);
    }
    /// Every operation, by number.
    fn op(&mut self, k: usize, id: u32) {
        let rem = CAP as isize - self.t.len as isize;
        match k {
            0..=3 => self.push(id, k + 1),
            4..=7 => self.push_front(id, k - 3),
            8 => self.mutate(),
            9 => {
                #[cfg(feature = "alloc")]
                self.clone();
            }
            _ => {
                // lengths around the capacity and around what a byte can count
                let l = match k {
                    10 => 0,
                    11 => 2,
                    12 => rem - 1,
                    13 => rem,
                    14 => rem + 1,
                    15 => rem + 256 - 62,
                    16 => rem + 255 - 62,
                    17 => 255,
                    18 => 256,
                    _ => 300,
                };
                if l < 0 {
                    sx::assume(false);
                }
                self.push_str(id, l as usize)
            }
        }
    }
}
const OPS: u64 = 20;

/// A string of `l` symbolic bytes, by one of several ways of getting there.
fn start(how: u32, l: usize) -> S {
    let mut t = Tx::new();
    if how >= 7 && l >= 3 {
        // a character of three bytes in the middle
        ascii(1000, l / 2 - 1, &mut t);
        let mut e = Text::new();
        any_char(990, 3, &mut e);
        t.bytes_of(e.bytes());
        ascii(1500, l - t.len, &mut t);
    } else {
        ascii(1000, l, &mut t);
    }
    let mut s = if how < 2 || how == 7 { NominalString::new() } else { NominalString::new_reverse() };
    let mut heap = l > CAP;
    match how {
        0 | 2 | 7 | 8 => sx::check(s.try_push_str(t.as_str()).is_ok(), 13),
        1 | 4 => {
            let mut i = 0;
            while i < l {
                let c = t.bytes()[i];
                sx::check(s.try_push(c as char).is_ok(), 14);
                i += 1;
            }
        }
        3 => {
            let mut i = l;
            while i > 0 {
                i -= 1;
                let c = t.bytes()[i];
                sx::check(s.try_push_front(c as char).is_ok(), 15);
            }
        }
        5 => s = NominalString::from(t.as_str()),
        _ => {
            #[cfg(feature = "alloc")]
            {
                s = NominalString::from(String::from(t.as_str()));
                // even a short one may stay where it is
                heap |= !s.is_inline();
            }
            #[cfg(not(feature = "alloc"))]
            sx::assume(false);
        }
    }
    S { s, t, heap }
}

/// Every inline length, every way of getting there, every operation.
#[no_mangle]
pub fn h_string_step() {
    let how = sx::job(9);
    let part = sx::job(8) as u64;
    let l = part * 8 + sx::pick(0, 0, 7);
    let mut s = start(how, if l == 63 { if cfg!(feature = "alloc") { 70 } else { 62 } } else { l as usize });
    s.same();
    s.op(sx::pick(1, 0, OPS - 1) as usize, 2000);
    s.same();
}

/// Sequences of operations from the lengths around both ends of the capacity.
#[no_mangle]
pub fn h_string_history() {
    let how = [0, 3, 5, 6][sx::job(4) as usize];
    let l = [0, 1, 57, 58, 59, 60, 61, 62][sx::job(8) as usize];
    let mut s = start(how, l);
    let steps = 2 + sx::tier();
    let mut i = 0;
    while i < steps {
        s.op(sx::pick(1 + i, 0, OPS - 1) as usize, 2000 + 1000 * i);
        s.same();
        i += 1;
    }
}

/// Conversions from and to other string types.
#[no_mangle]
pub fn h_string_convert() {
    let k = sx::job(6);
    let mut t = Tx::new();
    if k == 0 {
        let mut e = Text::new();
        let w = sx::pick(0, 1, 4) as usize;
        let c = any_char(10, w, &mut e);
        let s = NominalString::from(c);
        sx::reach(1);
        sx::eq(s.as_bytes(), e.bytes(), 1);
        sx::check(s.is_inline(), 2);
        return;
    }
    let l = [0, 1, 2, 5, 31, 60, 61, 62, 63, 64, 127, 128, 255, 256, 257, 300][sx::pick(0, 0, 15) as usize];
    if cfg!(not(feature = "alloc")) && l > CAP {
        sx::assume(false);
    }
    ascii(1000, if l < 70 { l } else { 8 }, &mut t);
    while t.len < l {
        t.push(b'z');
    }
    let s = match k {
        1 => NominalString::from(t.as_str()),
        2 => {
            let mut s = NominalString::new_reverse();
            sx::check(s.try_push_str(t.as_str()).is_ok(), 3);
            s
        }
        #[cfg(feature = "alloc")]
        3 => NominalString::from(String::from(t.as_str())),
        #[cfg(feature = "alloc")]
        4 => NominalString::from(&String::from(t.as_str())),
        _ => {
            let mut s = NominalString::default();
            sx::check(s.try_push_str(t.as_str()).is_ok(), 3);
            s
        }
    };
    sx::reach(1);
    sx::emit(s.as_bytes());
    sx::eq(s.as_bytes(), t.bytes(), 1);
    // a heap string may keep its buffer
    sx::check(s.is_inline() == (l <= CAP) || k == 3 && l <= CAP, 2);
    #[cfg(feature = "alloc")]
    {
        let inline = s.is_inline();
        match sx::pick(1, 0, 2) {
            0 => {
                let x = String::from(s);
                sx::eq(x.as_bytes(), t.bytes(), 4);
            }
            1 => match s.try_into_string() {
                Ok(x) => {
                    sx::reach(2);
                    sx::check(!inline, 5);
                    sx::eq(x.as_bytes(), t.bytes(), 6);
                }
                Err(x) => {
                    sx::reach(3);
                    sx::check(inline && x.is_inline(), 7);
                    sx::eq(x.as_bytes(), t.bytes(), 8);
                }
            },
            _ => {
                let c = s.clone();
                drop(s);
                sx::check(c.is_inline() == inline, 9);
                sx::eq(c.as_bytes(), t.bytes(), 10);
            }
        }
    }
}

/// A heap string of up to 65,536 bytes and one more operation: only the bytes at the
/// ends are symbolic.
#[cfg(feature = "alloc")]
#[no_mangle]
pub fn h_string_tall() {
    const L: [usize; 8] = [511, 512, 1023, 4096, 32_768, 65_534, 65_535, 65_536];
    const Z: [u8; 512] = [b'z'; 512];
    let l = L[sx::job(8) as usize];
    let how = sx::job(3);
    let z = unsafe { core::str::from_utf8_unchecked(&Z) };
    // the first two and the last two bytes
    let (mut head, mut tail) = (Tx::new(), Tx::new());
    ascii(1000, 2, &mut head);
    ascii(1010, 2, &mut tail);
    let mut m = l - 4;
    // all but the ends given at once, or pushed to the front one by one
    let given = how == 2 && l > 600;
    let mut s = match how {
        0 => NominalString::new(),
        1 => NominalString::new_reverse(),
        _ if given => {
            let mut t = String::new();
            let mut left = m;
            while left > 0 {
                let k = if left < 512 { left } else { 512 };
                t.push_str(&z[..k]);
                left -= k;
            }
            t.push_str(tail.as_str());
            NominalString::from(t)
        }
        _ => NominalString::from(tail.as_str()),
    };
    // from the front to the back, or the other way
    if how < 2 {
        sx::check(s.try_push_str(head.as_str()).is_ok(), 1);
    }
    let mut left = if given { 0 } else { m };
    while left > 0 {
        let k = if left < 512 { left } else { 512 };
        if how < 2 {
            sx::check(s.try_push_str(&z[..k]).is_ok(), 2);
        } else {
            // no call pushes a text to the front
            let (mut i, mut ok) = (0, true);
            while i < k {
                ok &= s.try_push_front('z').is_ok();
                i += 1;
            }
            sx::check(ok, 3);
        }
        left -= k;
    }
    if how < 2 {
        sx::check(s.try_push_str(tail.as_str()).is_ok(), 4);
    } else {
        let mut i = 2;
        while i > 0 {
            i -= 1;
            sx::check(s.try_push_front(head.bytes()[i] as char).is_ok(), 5);
        }
    }
    let mut z = b'z';
    match sx::pick(1, 0, 8) {
        0 => {}
        k @ 1..=2 => {
            let mut e = Text::new();
            let c = any_char(10, 1 + (k as usize - 1) * 2, &mut e);
            sx::check(s.try_push(c).is_ok(), 6);
            tail.bytes_of(e.bytes());
        }
        k @ 3..=4 => {
            let mut e = Text::new();
            let c = any_char(10, 1 + (k as usize - 3) * 2, &mut e);
            sx::check(s.try_push_front(c).is_ok(), 7);
            head.front(e.bytes());
        }
        5 => {
            let mut e = Tx::new();
            ascii(2000, 3, &mut e);
            sx::check(s.try_push_str(e.as_str()).is_ok(), 8);
            tail.bytes_of(e.bytes());
        }
        6 => {
            s.make_ascii_uppercase();
            z = b'Z';
            for t in [&mut head, &mut tail] {
                let mut u = Tx::new();
                let mut i = 0;
                while i < t.len {
                    let x = t.bytes()[i];
                    u.push(x - (x >= b'a' && x <= b'z') as u8 * 32);
                    i += 1;
                }
                *t = u;
            }
        }
        7 => {
            let c = s.clone();
            sx::check(c == s, 9);
            drop(s);
            s = c;
        }
        _ => {
            s = NominalString::from(String::from(s));
        }
    }
    let b = s.as_bytes();
    sx::reach(1);
    sx::check(!s.is_inline(), 10);
    sx::check(b.len() == head.len + m + tail.len, 11);
    if b.len() != head.len + m + tail.len {
        return;
    }
    sx::eq(&b[..head.len], head.bytes(), 12);
    let mut at = head.len;
    while m > 0 {
        let k = if m < 512 { m } else { 512 };
        let e = [z; 512];
        sx::eq(&b[at..at + k], &e[..k], 13);
        at += k;
        m -= k;
    }
    sx::eq(&b[at..], tail.bytes(), 14);
    sx::emit(&b[..head.len]);
    sx::emit(&b[at..]);
}
