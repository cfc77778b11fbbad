#![no_std]
#![allow(clippy::all)]
#[cfg(feature = "alloc")]
extern crate alloc;

pub mod sx;
#[macro_use]
pub mod util;
pub mod additive;
pub mod chinese;
pub mod compare;
pub mod digits;
pub mod enumerated;
pub mod ethiopic;
pub mod forms;
pub mod letters;
pub mod positional;
pub mod readers;
pub mod sets;
pub mod stems;
pub mod strings;
pub mod systems;

macro_rules! entries {
    ($($(#[$a:meta])* $m:ident :: $f:ident),* $(,)?) => {
        #[cfg(feature = "native")]
        pub fn entry(n: &str) -> Option<fn()> {
            match n {
                $($(#[$a])* stringify!($f) => Some($m::$f as fn()),)*
                _ => None,
            }
        }
    };
}
entries! {
    positional::h_positional,
    letters::h_letters,
    stems::h_stems,
    digits::h_digit_sets,
    digits::h_digit_adapters,
    digits::h_digit_fixed,
    digits::h_digit_big,
    digits::h_digit_wide,
    enumerated::h_enumerated,
    enumerated::h_enumerated_many,
    additive::h_roman,
    additive::h_roman_large,
    additive::h_roman_many,
    #[cfg(feature = "alloc")]
    additive::h_roman_tall,
    additive::h_places,
    additive::h_places_many,
    #[cfg(feature = "alloc")]
    additive::h_places_tall,
    additive::h_hebrew,
    additive::h_hebrew_many,
    #[cfg(feature = "alloc")]
    additive::h_hebrew_tall,
    #[cfg(not(feature = "alloc"))]
    additive::h_additive_huge,
    ethiopic::h_ethiopic,
    ethiopic::h_ethiopic_shape,
    ethiopic::h_ethiopic_window,
    sets::h_additive,
    sets::h_additive_order,
    sets::h_additive_wide,
    #[cfg(feature = "alloc")]
    sets::h_additive_tall,
    strings::h_string_step,
    strings::h_string_history,
    strings::h_string_convert,
    #[cfg(feature = "alloc")]
    strings::h_string_tall,
    compare::h_compare,
    compare::h_display,
    forms::h_infallible,
    forms::h_infallible_all,
    forms::h_error_helpers,
    #[cfg(feature = "alloc")]
    forms::h_pointers,
    #[cfg(feature = "alloc")]
    forms::h_pointers_all,
    forms::h_types,
    forms::h_types_near,
    forms::h_types_shape,
    readers::h_read,
    readers::h_read_near,
    readers::h_read_window,
    readers::h_read_shape,
    chinese::h_myriad,
    chinese::h_myriad_window,
    chinese::h_myriad_shape,
    chinese::h_scales,
    chinese::h_scales_window,
    chinese::h_scales_shape,
}

#[cfg(not(feature = "native"))]
mod rt {
    extern "C" {
        fn sx_panic() -> !;
        #[cfg(feature = "alloc")]
        fn sx_alloc(size: usize, align: usize) -> *mut u8;
        #[cfg(feature = "alloc")]
        fn sx_free(p: *mut u8, size: usize, align: usize);
        #[cfg(feature = "alloc")]
        fn sx_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
    }
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! {
        unsafe { sx_panic() }
    }
    #[cfg(feature = "alloc")]
    struct A;
    #[cfg(feature = "alloc")]
    unsafe impl core::alloc::GlobalAlloc for A {
        unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
            sx_alloc(l.size(), l.align())
        }
        unsafe fn dealloc(&self, p: *mut u8, l: core::alloc::Layout) {
            sx_free(p, l.size(), l.align())
        }
        unsafe fn realloc(&self, p: *mut u8, l: core::alloc::Layout, n: usize) -> *mut u8 {
            sx_realloc(p, l.size(), l.align(), n)
        }
    }
    #[cfg(feature = "alloc")]
    #[global_allocator]
    static G: A = A;
}
