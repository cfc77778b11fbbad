"""What each check runs, and within which bounds."""
A, N = "alloc", "noalloc"
NOT_APPLICABLE = {}
PROPS = {
    "C01": {
        "runs": [(A, "h_positional", {"what": "all 21 systems, all types"})],
        "bounds": ["none: every value of u8, u16, u32, u64, u128 and usize, all 21 systems"] * 2,
    },
    "C02": {
        "runs": [(A, "h_letters", {"what": "10 alphabets, plain and one-based, all types"})],
        "bounds": ["none: every value of every type, 10 alphabets, counting from 0 and from 1"] * 2,
    },
    "C03": {
        "runs": [(A, "h_stems", {"what": "stem and branch sequences, plain and one-based", "reach": [1, 2, 20, 21, 22]})],
        "bounds": ["none: every value of every type"] * 2,
    },
    "C04": {
        "runs": [
            (A, "h_digit_sets", {"what": "user digit sets with symbolic digits"}),
            (A, "h_digit_adapters", {"what": "chain, restrict, one-based and their compositions"}),
            (A, "h_digit_fixed", {"what": "fixed-length collections with and without fallback", "reach": [40, 41, 42, 43]}),
            (A, "h_digit_big", {"what": "collections larger than the integer type"}),
            (A, "h_digit_wide", {"what": "200 to 600 digits, plain, chained, restricted, one-based"}),
        ],
        "bounds": [
            "DigitSet of 0, 1, 2, 3, 7, 12 and 20 digits, each with and without zero and one-based: every value of every type for one-byte digits, below 100,000 for digits of 2, 3 and 4 bytes, below 40 for mixed ones; a user collection of 0..16 digits of either kind, plain (every value) and one-based (every u64 value); Chain, Restrict and their compositions of 0..4 digits, numbers below 3,000 (nested ones below 100); fixed collections with each kind of fallback, every value; collections of 255 to 65,537 digits, listed places; 200 to 600 digits, plain, chained, restricted and one-based, every value of one and two places",
            "the same with every value for every one-length DigitSet, below 400 for mixed ones; adapters of 0..7 digits and numbers below 2^32 (nested ones below 3,000)",
        ],
    },
    "C05": {
        "runs": [
            (A, "h_enumerated", {"what": "by decimal digits and by bytes: built-in and user sets of 0,1,2,3,10 symbols", "reach": [1, 2, 4]}),
            (A, "h_enumerated_many", {"what": "300 different symbols, more than u8 has values", "reach": [1, 2, 4]}),
        ],
        "bounds": ["every value of every type; user sets of 0, 1, 2, 3, 10 symbols; 300 different symbols with numbers below 131,072"] * 2,
    },
    "C06": {
        "runs": [(A, "h_roman", {"what": "all small numbers"}), (A, "h_roman_large", {"what": "millions with a digit window"}),
                 (A, "h_roman_many", {"what": "listed numbers of millions up to 300"}),
                 (A, "h_roman_tall", {"what": "listed numbers of millions up to 65,537, one free digit"})],
        "bounds": [
            "both systems, every type; every number below 400,000; up to 24 million with three adjacent free digits below, the rest zero; 14 listed counts of millions up to 300 the same; 6 listed counts of millions up to 65,537 plus one free digit",
            "both systems, every type; every number below 1,000,000; up to 130 million with four adjacent free digits below, the rest zero; 14 listed counts of millions up to 300 the same; 10 listed counts of millions up to 300,000 plus one free digit",
        ],
    },
    "C07": {
        "runs": [(A, "h_places", {"what": "8 systems, all types", "reach": [1, 2]}),
                 (A, "h_places_many", {"what": "listed multiples of the largest symbol up to 300"}),
                 (A, "h_places_tall", {"what": "listed multiples of the largest symbol up to 65,537, one free digit"})],
        "bounds": [
            "8 systems, every type; every number up to 34 times and 14 listed counts up to 300 times the largest symbol plus any remainder (all u8 and u16 values); 6 listed counts up to 65,537 times the largest symbol plus one free digit",
            "8 systems, every type; every number up to 110 times and 14 listed counts up to 300 times the largest symbol plus any remainder (all u8 and u16 values); 10 listed counts up to 300,000 times the largest symbol plus one free digit",
        ],
    },
    "C08": {
        "runs": [
            (A, "h_additive", {"what": "0-3 symbols of every value", "reach": [1, 2, 4]}),
            (A, "h_additive_order", {"what": "rejection of sets that are not descending"}),
            (A, "h_additive_wide", {"what": "9 symbols up to 2^127", "reach": [1, 2, 4]}),
            (A, "h_additive_tall", {"what": "many times the largest symbol, two free digits", "reach": [1, 4]}),
        ],
        "bounds": [
            "0-3 symbols with values 0..11 and numbers 0..40, every type; order: 2-4 symbols, values 0..3; wide: 9 listed values up to 2^127, at most one of each large symbol (all u8 values); tall: two sets, 6 listed counts up to 65,537 of the largest symbol plus any two digits",
            "0-3 symbols with values 0..20 and numbers 0..90, every type; order: 2-4 symbols, values 0..3; wide: 9 listed values up to 2^127, at most two of each large symbol (all u8 values); tall: two sets, 9 listed counts up to 300,000 of the largest symbol plus any two digits",
        ],
    },
    "C09": {
        "runs": [(A, "h_hebrew", {"what": "all types", "reach": [1, 2]}),
                 (A, "h_hebrew_many", {"what": "listed multiples of 400 up to 300"}),
                 (A, "h_hebrew_tall", {"what": "listed multiples of 400 up to 65,537, one free digit"})],
        "bounds": [
            "every type; every number below 14,800 (37 times 400; all u8 values); 14 listed counts up to 300 times 400 plus any remainder; 6 listed counts up to 65,537 times 400 plus one free digit",
            "every type; every number below 80,400 (all u8 and u16 values); 14 listed counts up to 300 times 400 plus any remainder; 10 listed counts up to 300,000 times 400 plus one free digit",
        ],
    },
    "C10": {
        "runs": [(A, "h_ethiopic", {"what": "all small numbers", "reach": [1, 2]}),
                 (A, "h_ethiopic_window", {"what": "digit windows over u64 and u128"}),
                 (A, "h_ethiopic_shape", {"what": "few digits, or one run of zeros, any length"})],
        "bounds": [
            "every type; every number below 10^10 (all u8, u16, u32 values); for u64 and u128 four adjacent free digits at every position, uniform digits around them; u64, u128 and usize numbers of any length with at most three non-zero digits anywhere, or with one run of zeros anywhere",
            "every type; every number below 10^12; for u64 and u128 six adjacent free digits at every position, uniform digits around them; u64, u128 and usize numbers of any length with at most three non-zero digits anywhere, or with one run of zeros anywhere",
        ],
    },
    "C11": {
        "runs": [(A, "h_myriad", {"what": "8 variants, all small numbers"}),
                 (A, "h_myriad_window", {"what": "digit windows over u64 and u128"}),
                 (A, "h_myriad_shape", {"what": "few digits, or one run of zeros, any length"})],
        "bounds": [
            "8 variants, every type; every number below 10^10 (all u8, u16, u32 values); 4 variants on u64 and u128 with five adjacent free digits at every position, uniform digits around them; 2 variants on u64 and u128 with at most three non-zero digits anywhere, or with one run of zeros anywhere",
            "8 variants, every type; every number below 10^13; 4 variants on u64 and u128 with seven adjacent free digits at every position, uniform digits around them; 4 variants on u64 and u128 with at most three non-zero digits anywhere, or with one run of zeros anywhere",
        ],
    },
    "C12": {
        "runs": [(A, "h_scales", {"what": "8 variants on 3 scales, all small numbers"}),
                 (A, "h_scales_window", {"what": "digit windows over u64 and u128", "reach": [1, 4]}),
                 (A, "h_scales_shape", {"what": "few digits, or one run of zeros, any length", "reach": [1, 4]})],
        "bounds": [
            "8 variants on 3 scales, every type; every number below 10^10 (all u8, u16, u32 values); 6 variants on u64 and u128 with five adjacent free digits at every position, uniform digits around them; 3 variants on u64 and u128 with at most three non-zero digits anywhere, or with one run of zeros anywhere",
            "8 variants on 3 scales, every type; every number below 10^13; 6 variants on u64 and u128 with seven adjacent free digits at every position, uniform digits around them; 6 variants on u64 and u128 with at most three non-zero digits anywhere, or with one run of zeros anywhere",
        ],
    },

    "C13": {
        "runs": [
            (A, "h_string_step", {"what": "one operation from every length and representation, symbolic contents"}),
            (A, "h_string_history", {"what": "operation histories around the capacity"}),
            (A, "h_string_convert", {"what": "constructors, conversions, clones", "reach": [1, 2, 3]}),
            (A, "h_string_tall", {"what": "one operation from 8 listed lengths up to 65,536"}),
        ],
        "bounds": [
            "starting strings of every length 0..62 and 70, 9 ways of building them, all ASCII contents, or with any one three-byte character in the middle; one operation out of 20 (pushes at either end of every char, strings of 0..300 bytes around the capacity, in-place edit, clone); histories of 2 operations from 8 lengths; one operation from 8 listed lengths up to 65,536 built 3 ways, two symbolic bytes at either end",
            "the same with histories of 3 operations",
        ],
    },
    "C14": {
        "runs": [
            (N, "h_string_step", {"what": "one operation from every length and representation, symbolic contents"}),
            (N, "h_string_history", {"what": "operation histories around the capacity", "reach": [1, 2]}),
            (N, "h_string_convert", {"what": "constructors, conversions, clones"}),
        ],
        "bounds": [
            "starting strings of every length 0..62, 8 ways of building them, all ASCII contents, or with any one three-byte character in the middle; one operation out of 19 (pushes at either end of every char, strings of 0..300 bytes around the capacity, in-place edit); histories of 2 operations from 8 lengths",
            "the same with histories of 3 operations",
        ],
    },
    "C15": {
        "runs": [
            (N, "h_positional", {"what": "as C01", "reach": [1, 3]}),
            (N, "h_letters", {"what": "as C02", "reach": [1, 2, 3]}),
            (N, "h_stems", {"what": "as C03", "reach": [1, 2, 3]}),
            (N, "h_digit_sets", {"what": "as C04", "reach": [1, 2, 3, 4]}),
            (N, "h_digit_big", {"what": "as C04"}),
            (N, "h_digit_wide", {"what": "as C04"}),
            (N, "h_digit_fixed", {"what": "as C04", "reach": [1, 3, 4]}),
            (N, "h_digit_adapters", {"what": "as C04", "thorough_only": True}),
            (N, "h_enumerated", {"what": "as C05", "reach": [1, 2, 3, 4]}),
            (N, "h_enumerated_many", {"what": "as C05"}),
            (N, "h_roman", {"what": "as C06", "thorough_only": True}),
            (N, "h_roman_large", {"what": "as C06", "reach": [1, 3]}),
            (N, "h_places", {"what": "as C07", "reach": [1, 2, 3]}),
            (N, "h_additive", {"what": "as C08", "reach": [1, 2, 4]}),
            (N, "h_additive_wide", {"what": "as C08", "reach": [1, 2, 4]}),
            (N, "h_hebrew", {"what": "as C09", "reach": [1, 2, 3]}),
            (N, "h_ethiopic", {"what": "as C10", "reach": [1, 2]}),
            (N, "h_ethiopic_window", {"what": "as C10", "reach": [1, 3]}),
            (N, "h_myriad", {"what": "as C11"}),
            (N, "h_myriad_window", {"what": "as C11", "reach": [1, 3]}),
            (N, "h_scales", {"what": "as C12", "thorough_only": True}),
            (N, "h_scales_window", {"what": "as C12", "reach": [1, 3, 4]}),
            (N, "h_ethiopic_shape", {"what": "as C10", "reach": [1, 3], "thorough_only": True}),
            (N, "h_myriad_shape", {"what": "as C11", "reach": [1, 3], "thorough_only": True}),
            (N, "h_scales_shape", {"what": "as C12", "reach": [1, 3, 4], "thorough_only": True}),
            (N, "h_additive_huge", {"what": "every number too large for any additive text", "reach": [3]}),
            (N, "h_infallible", {"what": "the infallible form of 72 systems", "reach": [1, 2, 3, 4]}),
        ],
        "bounds": [
            "the bounds of C01-C12, quick (small Roman numerals, small short/middle/long-scale Chinese numerals, shapes and digit adapters only in the thorough run); Roman above 21,000,000, Hebrew above 12,800 and the other additive systems above 310,000: every value of every type, both forms; infallible form: 20 blocks of 256 numbers near powers of ten and type limits, 72 systems",
            "the bounds of C01-C12, thorough; Roman above 21,000,000, Hebrew above 12,800 and the other additive systems above 310,000: every value of every type, both forms; infallible form: 20 blocks of 256 numbers near powers of ten and type limits, 72 systems",
        ],
    },
    "C16": {
        "runs": [
            (A, "h_infallible", {"what": "72 systems", "reach": [1, 2, 4]}),
            (A, "h_infallible_all", {"what": "65 systems, every number in bounds", "reach": [1, 2, 4]}),
            (A, "h_error_helpers", {"what": "error and result helpers, every number"}),
            (N, "h_infallible", {"what": "72 systems", "reach": [1, 2, 3, 4]}),
            (N, "h_infallible_all", {"what": "65 systems, every number in bounds", "reach": [1, 2, 3, 4]}),
            (N, "h_error_helpers", {"what": "error and result helpers, every number"}),
            (N, "h_additive_huge", {"what": "every number too large for any additive text", "reach": [3]}),
        ],
        "bounds": [
            "72 systems, every type, 20 blocks of 256 numbers near powers of ten and type limits; 65 systems, every type: every value for positional, letter (up to 2^64 without a heap), stem and enumerated systems, additive systems below 100,000 plus the numbers that hold the largest symbol 63..65, 127, 128, 255, 256 or 300 times with two free digits after, Ethiopic and Chinese below 10^8; helpers: every number of every type",
            "72 systems, every type, 20 blocks of 256 numbers near powers of ten and type limits; 65 systems, every type: every value for positional, letter (up to 2^64 without a heap), stem and enumerated systems, Roman below 200,000, other additive systems below 100,000, plus the numbers that hold the largest symbol 63..65, 127, 128, 255, 256 or 300 times with two free digits after, Ethiopic and Chinese below 10^11; helpers: every number of every type",
        ],
    },
    "C17": {
        "runs": [(A, "h_pointers", {"what": "Box, Rc, Arc and their nestings", "reach": [1, 2]}),
                 (A, "h_pointers_all", {"what": "Box, Rc, Arc, every number in bounds", "reach": [1, 2]})],
        "bounds": ["Box, Rc, Arc and their nestings around 8 inner systems (each error kind; five built-in systems), with and without a customised infallible form; every type; 20 blocks of 256 numbers near powers of ten and type limits; Box, Rc, Arc around 11 inner systems (each error kind; eight built-in systems): every value, but additive systems below 4,000 (thorough 10,000), Ethiopic and Chinese below 10^8 (thorough 10^11)"] * 2,
    },
    "C18": {
        "runs": [(A, "h_types", {"what": "every u8 and u16 value", "reach": [1, 2]}),
                 (A, "h_types_near", {"what": "numbers near powers of ten and type limits", "reach": [1, 2]}),
                 (A, "h_types_shape", {"what": "few digits, or one run of zeros, any length", "reach": [1, 2]})],
        "bounds": [
            "65 systems against u128: every value of u8; every value of the other types for positional, letter and stem systems, additive systems below 100,000 plus the numbers that hold the largest symbol 63..65, 127, 128, 255, 256 or 300 times with two free digits after, Ethiopic and Chinese below 10^8; 72 systems in 20 blocks of 256 numbers near powers of ten and type limits; Ethiopic and Chinese on u64 and usize with at most three non-zero digits anywhere, or with one run of zeros anywhere",
            "the same with Roman below 200,000, other additive systems below 100,000, plus the numbers that hold the largest symbol 63..65, 127, 128, 255, 256 or 300 times with two free digits after, Ethiopic and Chinese below 10^11",
        ],
    },
    "C19": {
        "runs": [(A, "h_read", {"what": "readers over small numbers"}),
                 (A, "h_read_near", {"what": "numbers near powers of ten and type limits"}),
                 (A, "h_read_window", {"what": "digit windows"}),
                 (A, "h_read_shape", {"what": "few digits, or one run of zeros, any length"})],
        "bounds": [
            "65 systems, every type: every value for positional, letter and stem systems, additive systems below 100,000 plus the numbers that hold the largest symbol 63..65, 127, 128, 255, 256 or 300 times with two free digits after, Ethiopic and Chinese below 10^8; 20 blocks of 256 numbers near powers of ten and type limits; Ethiopic and Chinese on u64 and u128 with three adjacent free digits at every position, uniform digits around them, with at most three non-zero digits anywhere, and with one run of zeros anywhere",
            "the same with Roman below 200,000, other additive systems below 100,000, plus the numbers that hold the largest symbol 63..65, 127, 128, 255, 256 or 300 times with two free digits after, Ethiopic and Chinese below 10^11, and windows of five digits",
        ],
    },
    "C20": {
        "runs": [(A, "h_compare", {"what": "equality and ordering", "reach": [1, 2]}), (A, "h_display", {"what": "printing"}),
                 (A, "h_string_convert", {"what": "constructors, conversions, clones", "reach": [1, 2, 3]}),
            (A, "h_string_tall", {"what": "one operation from 8 listed lengths up to 65,536"}),
                 (N, "h_compare", {"what": "equality and ordering", "reach": [1, 2]}), (N, "h_display", {"what": "printing"}),
                 (N, "h_string_convert", {"what": "constructors, conversions, clones"})],
        "bounds": [
            "two texts of 0..2 symbolic letters (values around the case bit, the last one optionally two bytes wide) after a common prefix of 0, 58 or 61 bytes, 5 ways of building each; printing: 6 format styles, 6 widths, precisions 0..4, texts of 0..4 symbolic letters or 61..64 bytes; debugging form of the same texts; conversions, constructors and clones as C13/C14",
            "the same with texts of 0..3 letters",
        ],
    },
}
