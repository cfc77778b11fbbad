//! Every built-in system behind one number.
use crate::sx;
use crate::util::*;
use nominals::*;

pub const SYSTEMS: u32 = 65;

/// With the user-defined ones.
pub const ALL: u32 = 72;

const WIDE: [(&str, u128); 6] =
    [("a", 1 << 100), ("b", 1 << 70), ("c", 70_000), ("d", 300), ("e", 7), ("", 0)];
fn digits() -> [char; 300] {
    let mut a = ['a'; 300];
    let mut i = 0;
    while i < 300 {
        a[i] = unsafe { char::from_u32_unchecked(0x4E00 + i as u32) };
        i += 1;
    }
    a
}
fn symbols() -> [&'static str; 300] {
    const S: [&str; 4] = ["x", "yy", "", "\u{1F600}"];
    let mut a = [""; 300];
    let mut i = 0;
    while i < 300 {
        a[i] = S[i % 4];
        i += 1;
    }
    a
}

/// System number `k`.
#[derive(Clone, Copy)]
pub struct Any(pub u32);

macro_rules! dispatch {
    ($k:expr, $n:expr, [$($s:expr),* $(,)?]) => {{
        let k = $k;
        let mut i = 0;
        $(
            if k == i {
                return $s.try_format_nominal($n);
            }
            i += 1;
        )*
        let _ = i;
        unreachable!()
    }};
}

impl Any {
    #[inline(never)]
    pub fn run<T: Uint>(self, n: T) -> Res<T> {
        dispatch!(self.0, n, [
            // 0: positional
            Decimal, EasternArabic, Persian, Bengali, Cambodian, Devanagari, Gujarati, Gurmukhi, Kannada, Lao,
            Malayalam, Mongolian, Myanmar, Oriya, Tamil, Telugu, Thai, Tibetan, CjkDecimal, HexUpper, HexLower,
            // 21: letters, one-based letters
            LetterUpper, LetterLower, GreekUpper, GreekLower, Hiragana, HiraganaIroha, Katakana, KatakanaIroha,
            HangeulJamo, HangeulSyllable,
            OneBased::new(LetterUpper), OneBased::new(LetterLower), OneBased::new(GreekUpper),
            OneBased::new(GreekLower), OneBased::new(Hiragana), OneBased::new(HiraganaIroha), OneBased::new(Katakana),
            OneBased::new(KatakanaIroha), OneBased::new(HangeulJamo), OneBased::new(HangeulSyllable),
            // 41: stems and branches
            CjkHeavenlyStem, CjkEarthlyBranch, OneBased::new(CjkHeavenlyStem), OneBased::new(CjkEarthlyBranch),
            // 45: enumerated
            CircledNumber, DoubleCircledNumber,
            // 47: additive
            RomanUpper, RomanLower, ArmenianUpper, ArmenianLower, Georgian, JapaneseFormal, JapaneseInformal,
            HangeulFormal, HanjaInformal, HanjaFormal,
            // 57
            Hebrew, Ethiopic,
            // 59: Chinese
            SimplifiedChineseInformal::default(), SimplifiedChineseFormal::default().financial().mid_scale(),
            TraditionalChineseInformal::default().financial().long_scale(),
            TraditionalChineseFormal::default().short_scale(),
            SimplifiedChineseInformal::default().short_scale(),
            TraditionalChineseFormal::default(),
            // 65: user-defined, larger than the smallest integer types
            EnumeratedSet::<300, true>::new(symbols()), EnumeratedSet::<300, false>::zeroless(symbols()),
            DigitSet::<300, true>::new(digits()), DigitSet::<300, false>::zeroless(digits()),
            OneBased::new(DigitSet::<300, false>::zeroless(digits())),
            AdditiveSet::new(WIDE), Restrict::new(290, DigitSet::<300, true>::new(digits())),
        ])
    }
    /// The infallible form.
    #[inline(never)]
    pub fn always<T: Uint>(self, n: T) -> NominalString {
        macro_rules! go {
            ([$($k:literal => $s:expr),* $(,)?]) => {
                match self.0 {
                    $($k => n.to_nominal(&$s),)*
                    _ => unreachable!(),
                }
            };
        }
        go!([
            0 => Decimal, 1 => EasternArabic, 2 => Persian, 3 => Bengali, 4 => Cambodian, 5 => Devanagari,
            6 => Gujarati, 7 => Gurmukhi, 8 => Kannada, 9 => Lao, 10 => Malayalam, 11 => Mongolian, 12 => Myanmar,
            13 => Oriya, 14 => Tamil, 15 => Telugu, 16 => Thai, 17 => Tibetan, 18 => CjkDecimal, 19 => HexUpper,
            20 => HexLower, 21 => LetterUpper, 22 => LetterLower, 23 => GreekUpper, 24 => GreekLower, 25 => Hiragana,
            26 => HiraganaIroha, 27 => Katakana, 28 => KatakanaIroha, 29 => HangeulJamo, 30 => HangeulSyllable,
            31 => OneBased::new(LetterUpper), 32 => OneBased::new(LetterLower), 33 => OneBased::new(GreekUpper),
            34 => OneBased::new(GreekLower), 35 => OneBased::new(Hiragana), 36 => OneBased::new(HiraganaIroha),
            37 => OneBased::new(Katakana), 38 => OneBased::new(KatakanaIroha), 39 => OneBased::new(HangeulJamo),
            40 => OneBased::new(HangeulSyllable), 41 => CjkHeavenlyStem, 42 => CjkEarthlyBranch,
            43 => OneBased::new(CjkHeavenlyStem), 44 => OneBased::new(CjkEarthlyBranch), 45 => CircledNumber,
            46 => DoubleCircledNumber, 47 => RomanUpper, 48 => RomanLower, 49 => ArmenianUpper, 50 => ArmenianLower,
            51 => Georgian, 52 => JapaneseFormal, 53 => JapaneseInformal, 54 => HangeulFormal, 55 => HanjaInformal,
            56 => HanjaFormal, 57 => Hebrew, 58 => Ethiopic, 59 => SimplifiedChineseInformal::default(),
            60 => SimplifiedChineseFormal::default().financial().mid_scale(),
            61 => TraditionalChineseInformal::default().financial().long_scale(),
            62 => TraditionalChineseFormal::default().short_scale(),
            63 => SimplifiedChineseInformal::default().short_scale(),
            64 => TraditionalChineseFormal::default(),
            65 => EnumeratedSet::<300, true>::new(symbols()), 66 => EnumeratedSet::<300, false>::zeroless(symbols()),
            67 => DigitSet::<300, true>::new(digits()), 68 => DigitSet::<300, false>::zeroless(digits()),
            69 => OneBased::new(DigitSet::<300, false>::zeroless(digits())), 70 => AdditiveSet::new(WIDE),
            71 => Restrict::new(290, DigitSet::<300, true>::new(digits())),
        ])
    }
    /// Radix in which the system's divisions stay digit operations.
    pub fn base(self) -> u32 {
        match self.0 {
            19 | 20 => 16,
            21 | 22 | 31 | 32 => 26,
            23 | 24 | 33 | 34 => 24,
            25 | 27 | 35 | 37 => 46,
            26 | 28 | 36 | 38 => 47,
            29 | 30 | 39 | 40 => 14,
            _ => 10,
        }
    }
    /// Some(shift) for the bijective systems.
    pub fn bijective(self) -> Option<u32> {
        match self.0 {
            21..=30 => Some(1),
            31..=40 => Some(0),
            _ => None,
        }
    }
    /// The value of the largest symbol of the additive systems.
    pub fn largest(self) -> Option<u128> {
        match self.0 {
            47 | 48 => Some(1_000_000),
            51 => Some(10_000),
            49..=56 => Some(9_000),
            57 => Some(400),
            _ => None,
        }
    }
    /// The largest number whose text stays short in the unary systems.
    pub fn reasonable(self) -> u128 {
        match self.0 {
            47 | 48 => 64_100_000,
            49..=56 | 70 => 300_000,
            57 => 30_000,
            _ => u128::MAX,
        }
    }
}

/// Starting points of blocks of 256 numbers: powers of ten and the limits of the
/// integer types.
const NEAR: [u128; 20] = [
    0,
    256,
    3_872,
    9_872,
    29_744,
    65_280,
    99_872,
    299_744,
    999_872,
    9_999_872,
    63_999_872,
    (1 << 32) - 256,
    1 << 32,
    1_000_000_000_000 - 128,
    1_000_000_000_000_000 - 128,
    10_000_000_000_000_000 - 128,
    (1 << 64) - 256,
    1 << 64,
    100_000_000_000_000_000_000_000_000_000_000 - 128,
    u128::MAX - 255,
];
pub const BLOCKS: u32 = 20;
/// The numbers of block `b` (a single symbolic variable).
pub fn near(b: u32, max: u128) -> u128 {
    let c = NEAR[b as usize];
    if c > max || c + 255 > max && c != u128::MAX - 255 {
        sx::assume(false);
    }
    c + sx::var(0, 0, 255) as u128
}
