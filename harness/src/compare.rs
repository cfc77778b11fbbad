//! Comparison and printing of `NominalString`s.
use crate::sx;
use crate::util::*;
use core::cmp::Ordering;
use core::fmt::Write;
use nominals::NominalString;
#[cfg(feature = "alloc")]
use alloc::string::{String, ToString};

type Tx = Text<200>;
const LAYOUTS: u32 = 5;

/// The same text, stored in different ways.
fn build(layout: u32, t: &Tx) -> NominalString {
    let mut s = NominalString::new_reverse();
    match layout {
        0 => NominalString::from(t.as_str()),
        1 => {
            // end first, character by character
            let mut i = t.len;
            while i > 0 {
                i -= 1;
                let c = t.bytes()[i];
                if c >= 0x80 {
                    // the two-byte characters of `letters`
                    i -= 1;
                    let c = ((t.bytes()[i] & 0x1f) as u32) << 6 | (c & 0x3f) as u32;
                    let _ = s.try_push_front(unsafe { char::from_u32_unchecked(c) });
                } else {
                    let _ = s.try_push_front(c as char);
                }
            }
            s
        }
        2 => {
            let _ = s.try_push_str(t.as_str());
            s
        }
        #[cfg(feature = "alloc")]
        3 => NominalString::from(String::from(t.as_str())),
        _ => {
            let mut s = NominalString::new();
            let _ = s.try_push_str(t.as_str());
            s
        }
    }
}

/// `n` symbolic letters; with `wide`, the last one takes two bytes.
fn letters(id: u32, n: u64, wide: bool, t: &mut Tx) {
    const L: [u8; 4] = [0, b'A', b'a', 0x7f];
    let mut i = 0;
    while i < n {
        let v = sx::var(id + i as u32, 0, 3);
        if wide && i + 1 == n {
            t.push(0xC3);
            t.push(0x80 + v as u8 * 21);
        } else {
            t.push(L[v as usize]);
        }
        i += 1;
    }
}

fn order(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.len() || i == b.len() {
            return if a.len() < b.len() {
                Ordering::Less
            } else if a.len() > b.len() {
                Ordering::Greater
            } else {
                Ordering::Equal
            };
        }
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] > b[i] {
            return Ordering::Greater;
        }
        i += 1;
    }
}

#[no_mangle]
pub fn h_compare() {
    let (la, lb) = (sx::job(LAYOUTS), sx::job(LAYOUTS));
    let (mut a, mut b) = (Tx::new(), Tx::new());
    let max = if sx::tier() == 0 { 2 } else { 3 };
    // a common prefix takes the texts to and over the inline capacity
    let prefix = [0, 58, 61][sx::pick(0, 0, 2) as usize];
    let (na, nb) = (sx::pick(1, 0, max), sx::pick(2, 0, max));
    let wide = sx::pick(3, 0, 3);
    if cfg!(not(feature = "alloc")) && prefix as u64 + max + 1 > 62 {
        sx::assume(false);
    }
    let mut i = 0;
    while i < prefix {
        a.push(b'p');
        b.push(b'p');
        i += 1;
    }
    letters(10, na, wide & 1 == 1, &mut a);
    letters(20, nb, wide & 2 == 2, &mut b);
    let (x, y) = (build(la, &a), build(lb, &b));
    let o = order(a.bytes(), b.bytes());
    let eq = o == Ordering::Equal;
    sx::reach(if eq { 1 } else { 2 });
    sx::emit(&[o as i8 as u8]);
    sx::check((x == y) == eq, 1);
    sx::check((x != y) != eq, 2);
    sx::check(x.cmp(&y) == o, 3);
    sx::check(x.partial_cmp(&y) == Some(o), 4);
    sx::check((x < y) == (o == Ordering::Less) && (x >= y) == (o != Ordering::Less), 5);
    sx::check((x > y) == (o == Ordering::Greater) && (x <= y) == (o != Ordering::Greater), 6);
    sx::check((x == *b.as_str()) == eq, 7);
    sx::check((x == b.as_str()) == eq, 8);
    sx::check(x.partial_cmp(b.as_str()) == Some(o), 9);
    sx::check(x.is_empty() == (a.len == 0) && x.len() == a.len, 10);
    #[cfg(feature = "alloc")]
    {
        let z = String::from(b.as_str());
        sx::check((x == z) == eq, 11);
        sx::check(x.partial_cmp(&z) == Some(o), 12);
    }
}

struct Buf(Text<400>);
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0.str(s);
        Ok(())
    }
}

#[no_mangle]
pub fn h_display() {
    let layout = sx::job(LAYOUTS);
    let style = sx::job(7);
    let mut t = Tx::new();
    // (characters, bytes): symbolic letters, possibly a two-byte one at the end
    let chars;
    match sx::pick(0, 0, 2) {
        0 => {
            chars = sx::pick(1, 0, 4) as usize;
            letters(10, chars as u64, false, &mut t);
        }
        1 => {
            chars = sx::pick(1, 1, 3) as usize;
            letters(10, chars as u64, true, &mut t);
        }
        _ => {
            chars = sx::pick(1, 61, if cfg!(feature = "alloc") { 64 } else { 62 }) as usize;
            while t.len < chars {
                t.push(b'q');
            }
        }
    }
    let s = build(layout, &t);
    let width = [0, 1, 3, 4, 7, 66][sx::pick(2, 0, 5) as usize];
    let prec = sx::pick(3, 0, 4) as usize;
    let mut w = Buf(Text::new());
    if style == 6 {
        return debug(&s, &t);
    }
    // fill, alignment (0 left, 1 right, 2 centre), with width, with precision
    let (fill, align, has_w, has_p) = match style {
        0 => (" ", 0, false, false),
        1 => (" ", 0, true, false),
        2 => ("*", 1, true, false),
        3 => ("\u{4E2D}", 2, true, false),
        4 => ("-", 0, true, true),
        _ => (" ", 0, false, true),
    };
    let r = match style {
        0 => write!(w, "{}", s),
        1 => write!(w, "{:1$}", s, width),
        2 => write!(w, "{:*>1$}", s, width),
        3 => write!(w, "{:\u{4E2D}^1$}", s, width),
        4 => write!(w, "{:-<1$.2$}", s, width, prec),
        _ => write!(w, "{:.1$}", s, prec),
    };
    sx::check(r.is_ok(), 2);
    // number of characters and bytes shown
    let shown = if has_p && prec < chars { prec } else { chars };
    let bytes = if shown == chars { t.len } else { shown };
    let pad = if has_w && width > shown { width - shown } else { 0 };
    let left = match align {
        0 => 0,
        1 => pad,
        _ => pad / 2,
    };
    let mut e = Text::<400>::new();
    let mut i = 0;
    while i < left {
        e.str(fill);
        i += 1;
    }
    e.bytes_of(&t.bytes()[..bytes]);
    while i < pad {
        e.str(fill);
        i += 1;
    }
    sx::reach(1);
    sx::emit(w.0.bytes());
    sx::eq(w.0.bytes(), e.bytes(), 1);
    #[cfg(feature = "alloc")]
    if style == 0 {
        let x = s.to_string();
        sx::eq(x.as_bytes(), t.bytes(), 3);
    }
}

/// The debugging form names the text in quotes, escaped as for any string.
fn debug(s: &NominalString, t: &Tx) {
    let mut w = Buf(Text::new());
    sx::check(write!(w, "{:?}", s).is_ok(), 4);
    let mut e = Text::<400>::new();
    e.push(b'"');
    let mut i = 0;
    while i < t.len {
        let c = t.bytes()[i];
        if sx::fork((c == 0) as u64) == 1 {
            e.str("\\0");
        } else if sx::fork((c == 0x7f) as u64) == 1 {
            e.str("\\u{7f}");
        } else {
            e.push(c);
        }
        i += 1;
    }
    e.push(b'"');
    let b = w.0.bytes();
    let mut i = 0;
    while i < b.len() && b[i] != b'"' {
        i += 1;
    }
    sx::reach(1);
    sx::emit(b);
    let ok = b.len() >= i + e.len;
    sx::check(ok, 5);
    if ok {
        sx::eq(&b[i..i + e.len], e.bytes(), 6);
    }
}
