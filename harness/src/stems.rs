//! Heavenly stems and earthly branches.
use crate::sx;
use crate::util::*;
use nominals::*;

const STEMS: &str = "甲乙丙丁戊己庚辛壬癸";
const BRANCHES: &str = "子丑寅卯辰巳午未申酉戌亥";
pub const CJK: [u32; 10] = [0x3007, 0x4E00, 0x4E8C, 0x4E09, 0x56DB, 0x4E94, 0x516D, 0x4E03, 0x516B, 0x4E5D];

fn stems<T: Uint>(k: u32) {
    let s: &dyn NominalSystem<T> = match k {
        0 => &CjkHeavenlyStem,
        1 => &CjkEarthlyBranch,
        2 => &OneBased::new(CjkHeavenlyStem),
        _ => &OneBased::new(CjkEarthlyBranch),
    };
    let sym = if k % 2 == 0 { STEMS } else { BRANCHES };
    let count = sym.len() / 3;
    let x = number::<T>(0, 10, u128::MAX);
    let mut small = 1000;
    if x.len == 1 {
        small = sx::fork(x.d[0] as u64) as usize;
    } else if x.len == 2 {
        small = sx::fork(x.d[1] as u64) as usize * 10;
        if small == 10 {
            small += sx::fork(x.d[0] as u64) as usize;
        }
    }
    let r = s.try_format_nominal(x.n);
    if small == 0 {
        sx::reach(20);
        expect_err(&r, 0, x.n);
    } else if small <= count {
        sx::reach(21);
        expect_text(&r, &sym.as_bytes()[3 * small - 3..3 * small], x.n);
    } else {
        sx::reach(22);
        let mut t = Text::<400>::new();
        let mut i = x.len;
        while i > 0 {
            i -= 1;
            t.cp(CJK[x.d[i] as usize]);
        }
        expect_text(&r, t.bytes(), x.n);
    }
}

#[no_mangle]
pub fn h_stems() {
    let t = sx::job(6);
    let k = sx::job(4);
    by_type!(t, stems, k)
}
