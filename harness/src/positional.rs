use crate::sx;
use crate::util::*;
use nominals::*;

fn positional<T: Uint>(s: &dyn NominalSystem<T>, base: u32, digits: &[u32]) {
    let x = number::<T>(0, base, u128::MAX);
    let r = s.try_format_nominal(x.n);
    let mut t = Text::<400>::new();
    let mut i = x.len;
    while i > 0 {
        i -= 1;
        t.cp(digits[x.d[i] as usize]);
    }
    expect_text(&r, t.bytes(), x.n);
}

const fn run<const N: usize>(first: u32) -> [u32; N] {
    let mut a = [0; N];
    let mut i = 0;
    while i < N {
        a[i] = first + i as u32;
        i += 1;
    }
    a
}

fn numeric<T: Uint>(k: u32) {
    let mut dec = [0u32; 10];
    let (s, first): (&dyn NominalSystem<T>, u32) = match k {
        0 => (&Decimal, 0x30),
        1 => (&EasternArabic, 0x660),
        2 => (&Persian, 0x6F0),
        3 => (&Bengali, 0x9E6),
        4 => (&Cambodian, 0x17E0),
        5 => (&Devanagari, 0x966),
        6 => (&Gujarati, 0xAE6),
        7 => (&Gurmukhi, 0xA66),
        8 => (&Kannada, 0xCE6),
        9 => (&Lao, 0xED0),
        10 => (&Malayalam, 0xD66),
        11 => (&Mongolian, 0x1810),
        12 => (&Myanmar, 0x1040),
        13 => (&Oriya, 0xB66),
        14 => (&Tamil, 0xBE6),
        15 => (&Telugu, 0xC66),
        16 => (&Thai, 0xE50),
        17 => (&Tibetan, 0xF20),
        18 => {
            dec = [
                0x3007, 0x4E00, 0x4E8C, 0x4E09, 0x56DB, 0x4E94, 0x516D, 0x4E03, 0x516B, 0x4E5D,
            ];
            (&CjkDecimal, 0)
        }
        _ => {
            let (s, a): (&dyn NominalSystem<T>, u32) =
                if k == 19 { (&HexUpper, 0x41) } else { (&HexLower, 0x61) };
            let mut hex = [0u32; 16];
            let mut i = 0;
            while i < 16 {
                hex[i] = if i < 10 { 0x30 + i as u32 } else { a + i as u32 - 10 };
                i += 1;
            }
            positional(s, 16, &hex);
            return;
        }
    };
    if first != 0 {
        dec = run::<10>(first);
    }
    positional(s, 10, &dec);
}

#[no_mangle]
pub fn h_positional() {
    let t = sx::job(6);
    let k = sx::job(21);
    by_type!(t, numeric, k)
}
