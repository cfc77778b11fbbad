//! Alphabetic systems.
use crate::sx;
use crate::util::*;
use nominals::*;

const HIRAGANA: &str = "あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをん";
const IROHA: &str = "いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす";
const JAMO: [u32; 14] = [
    0x3131, 0x3134, 0x3137, 0x3139, 0x3141, 0x3142, 0x3145, 0x3147, 0x3148, 0x314A, 0x314B, 0x314C, 0x314D, 0x314E,
];
const INITIAL: [u32; 14] = [0, 2, 3, 5, 6, 7, 9, 11, 12, 14, 15, 16, 17, 18];

/// The alphabet of system `k` and its length.
pub fn alphabet(k: u32, a: &mut [u32; 48]) -> usize {
    let mut n = 0;
    match k {
        0 | 1 => {
            while n < 26 {
                a[n] = (if k == 0 { 0x41 } else { 0x61 }) + n as u32;
                n += 1;
            }
        }
        2 | 3 => {
            let first = if k == 2 { 0x391 } else { 0x3B1 };
            while n < 24 {
                // no capital at the place of the final sigma
                a[n] = first + n as u32 + if n >= 17 { 1 } else { 0 };
                n += 1;
            }
        }
        4 | 5 | 6 | 7 => {
            let s = if k == 4 || k == 6 { HIRAGANA } else { IROHA };
            let b = s.as_bytes();
            while n * 3 < b.len() {
                let c = (b[3 * n] as u32 - 0xE0) * 4096 + (b[3 * n + 1] as u32 - 0x80) * 64 + (b[3 * n + 2] as u32 - 0x80);
                a[n] = if k >= 6 { c + 0x60 } else { c };
                n += 1;
            }
        }
        8 => {
            while n < 14 {
                a[n] = JAMO[n];
                n += 1;
            }
        }
        _ => {
            while n < 14 {
                a[n] = 0xAC00 + 588 * INITIAL[n];
                n += 1;
            }
        }
    }
    n
}

fn plain<T: Uint>(s: &dyn NominalSystem<T>, k: u32) {
    let mut a = [0; 48];
    let base = alphabet(k, &mut a) as u32;
    let x = bijective::<T>(0, base, 1);
    let r = s.try_format_nominal(x.n);
    text::<T>(&x, &a, &r);
}
fn text<T: Uint>(x: &Num<T>, a: &[u32; 48], r: &Res<T>) {
    let mut t = Text::<400>::new();
    let mut i = x.len;
    while i > 0 {
        i -= 1;
        t.cp(a[x.d[i] as usize - 1]);
    }
    expect_text(r, t.bytes(), x.n);
}
fn one<T: Uint>(s: &dyn NominalSystem<T>, k: u32) {
    let mut a = [0; 48];
    let base = alphabet(k, &mut a) as u32;
    if sx::pick(300, 0, 1) == 0 {
        let z = T::from(0u8);
        let r = s.try_format_nominal(z);
        return expect_err(&r, 0, z);
    }
    let x = bijective::<T>(0, base, 0);
    let r = s.try_format_nominal(x.n);
    text::<T>(&x, &a, &r);
}

fn letters<T: Uint>(k: u32, onebased: bool) {
    macro_rules! go {
        ($s:expr) => {
            if onebased {
                one::<T>(&OneBased::new($s), k)
            } else {
                plain::<T>(&$s, k)
            }
        };
    }
    match k {
        0 => go!(LetterUpper),
        1 => go!(LetterLower),
        2 => go!(GreekUpper),
        3 => go!(GreekLower),
        4 => go!(Hiragana),
        5 => go!(HiraganaIroha),
        6 => go!(Katakana),
        7 => go!(KatakanaIroha),
        8 => go!(HangeulJamo),
        _ => go!(HangeulSyllable),
    }
}

#[no_mangle]
pub fn h_letters() {
    let t = sx::job(6);
    let k = sx::job(10);
    let o = sx::job(2);
    by_type!(t, letters, k, o == 1)
}
