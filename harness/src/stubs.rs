//! Models the solver uses in place of library code it cannot fold.
//!
//! None of these touch code under check. Each is an exact sequential model of the standard
//! library function it replaces; replays run against the real one.

use std::any::TypeId;
use std::sync::atomic::Ordering;

const fn fnv(s: &str) -> usize {
    let b = s.as_bytes();
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut i = 0;
    while i < b.len() {
        h ^= b[i] as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
        i += 1;
    }
    (h & 0xffff_ffff_ffff) as usize
}

/// `TypeId::of`: a constant per type, equal exactly when the type names are.
pub fn type_id_of<T: ?Sized + 'static>() -> TypeId {
    let h = const { fnv(std::any::type_name::<T>()) };
    let p = h as *const ();
    unsafe { std::mem::transmute::<[*const (); 2], TypeId>([p, p]) }
}

/// `TypeId` equality, over the identifiers above.
pub fn type_id_eq(a: TypeId, b: TypeId) -> bool {
    let [a, _] = unsafe { std::mem::transmute::<TypeId, [*const (); 2]>(a) };
    let [b, _] = unsafe { std::mem::transmute::<TypeId, [*const (); 2]>(b) };
    a as usize == b as usize
}

/// Atomic arithmetic on word sized integers, sequentially.
pub unsafe fn atomic_add<T: Copy, U: Copy>(p: *mut T, v: U, _: Ordering) -> T {
    let p = p as *mut usize;
    let v = *(&v as *const U as *const usize);
    let o = *p;
    *p = o.wrapping_add(v);
    *(&o as *const usize as *const T)
}

/// Atomic arithmetic on word sized integers, sequentially.
pub unsafe fn atomic_sub<T: Copy, U: Copy>(p: *mut T, v: U, _: Ordering) -> T {
    let p = p as *mut usize;
    let v = *(&v as *const U as *const usize);
    let o = *p;
    *p = o.wrapping_sub(v);
    *(&o as *const usize as *const T)
}

pub fn fence(_: Ordering) {}

/// `fmt::write` where nothing observes what's written: messages of errors that are discarded.
pub fn write_nothing(_: &mut dyn std::fmt::Write, _: std::fmt::Arguments<'_>) -> std::fmt::Result {
    Ok(())
}

/// `fmt::Arguments::as_str`, given that `args_from_str` below never builds the form it detects.
pub fn args_as_str<'a: 'a>(_: &std::fmt::Arguments<'a>) -> Option<&'static str> {
    None
}

/// `fmt::Arguments::from_str` as a single `{}` placeholder.
pub fn args_from_str<'a: 'a>(s: &'static str) -> std::fmt::Arguments<'a> {
    let s: &'static &'static str = Box::leak(Box::new(s));
    leak(format_args!("{}", *s))
}

/// Give the (one) argument of `a` a static home.
fn leak<'a>(a: std::fmt::Arguments<'_>) -> std::fmt::Arguments<'a> {
    #[repr(C)]
    struct Raw {
        template: *const u8,
        args: *const [*const (); 2],
    }
    unsafe {
        let a: Raw = std::mem::transmute(a);
        let args: &'static [*const (); 2] = Box::leak(Box::new(*a.args));
        std::mem::transmute(Raw { template: a.template, args })
    }
}

/// A hint only.
pub fn args_capacity<'a: 'a>(_: &std::fmt::Arguments<'a>) -> usize {
    0
}

/// Formatting of primitives.
///
/// The library formats into text whose length depends on the value, which is too much for the solver. Here they're formatted
/// into bytes that say what was formatted and how: the same value in the same style under the same options always gives the
/// same bytes, and different ones give different bytes wherever the library would give different text for some options.
pub mod format {
    use crate::obs::options;
    use std::fmt::{Formatter, Result};

    #[inline(always)]
    fn write(f: &mut Formatter, b: &[u8]) -> Result {
        // SAFETY: only the harness's own sink gets to see it.
        f.write_str(unsafe { std::str::from_utf8_unchecked(b) })
    }

    /// Whether text is formatted under flags. If it isn't then it's the text itself, as it would be by the library.
    pub static mut FLAGS: bool = false;

    #[inline(always)]
    fn number(f: &mut Formatter, what: u8, v: u128) -> Result {
        let mut b = [0; 25];
        b[0] = what;
        let v = v.to_ne_bytes();
        let o = options(f.options());
        let mut i = 0;
        while i < 16 {
            b[1 + i] = v[i];
            i += 1;
        }
        i = 0;
        while i < 8 {
            b[17 + i] = o[i];
            i += 1;
        }
        write(f, &b)
    }

    macro_rules! int {
        ($($display:ident $debug:ident $t:ty, $n:literal;)*) => {$(
            pub fn $display(v: &$t, f: &mut Formatter<'_>) -> Result {
                number(f, if *v < 0 as $t { 10 } else { 0 }, *v as i128 as u128)
            }

            /// The same, unless in hexadecimal.
            pub fn $debug(v: &$t, f: &mut Formatter<'_>) -> Result {
                if f.options().get_debug_as_hex().is_some() {
                    number(f, $n, *v as i128 as u128)
                } else {
                    $display(v, f)
                }
            }
        )*};
    }

    int! {
        u64_display u64_debug u64, 1;
        i64_display i64_debug i64, 2;
        u128_display u128_debug u128, 3;
        i128_display i128_debug i128, 4;
    }

    fn float(v: &f64) -> u128 {
        if v.is_nan() {
            0x7ff8_0000_0000_0000
        } else {
            v.to_bits() as u128
        }
    }

    pub fn f64_display(v: &f64, f: &mut Formatter<'_>) -> Result {
        number(f, 5, float(v))
    }

    pub fn f64_debug(v: &f64, f: &mut Formatter<'_>) -> Result {
        number(f, 6, float(v))
    }

    pub fn bool_display(v: &bool, f: &mut Formatter<'_>) -> Result {
        number(f, 7, *v as u128)
    }

    pub fn char_display(v: &char, f: &mut Formatter<'_>) -> Result {
        number(f, 8, *v as u128)
    }

    pub fn char_debug(v: &char, f: &mut Formatter<'_>) -> Result {
        number(f, 9, *v as u128)
    }

    pub fn str_display(v: &str, f: &mut Formatter<'_>) -> Result {
        f.write_str(v)?;
        // SAFETY: there's only one thread.
        if unsafe { FLAGS } {
            write(f, &options(f.options()))?;
        }
        Ok(())
    }

    pub fn str_debug(v: &str, f: &mut Formatter<'_>) -> Result {
        f.write_str("\"")?;
        str_display(v, f)?;
        f.write_str("\"")
    }
}
