//! Harnesses over the public API of `value-bag`.
//!
//! Each harness is a plain function over nondeterministic inputs. Under Kani it is a query over
//! all of them; natively it replays one.

#![cfg_attr(kani, feature(const_type_name))]
#![feature(formatting_options)]
#![allow(dead_code, unused_imports, unused_macros, unused_variables, clippy::all)]
#![recursion_limit = "1024"]

pub mod nd;
#[cfg(kani)]
pub mod stubs;

/// Declare harnesses.
///
/// `name [unwind] ("configurations" ..; "thorough configurations" ..) { body }` makes a query at
/// `name::check` and an entry in the replay table, in those configurations. The driver reads the
/// declarations, and the documentation that precedes them, from the source: see `check.py`.
macro_rules! harnesses {
    ($($t:tt)*) => {
        declare! { [] $($t)* }
    };
}

/// The same, where nothing observes what's formatted, and so nothing is.
macro_rules! silent_harnesses {
    ($($t:tt)*) => {
        declare! {
            [
                #[kani::stub(std::fmt::write, crate::stubs::write_nothing)]
            ]
            $($t)*
        }
    };
}

/// The query of a harness.
macro_rules! check {
    ([$(#[$extra:meta])*] $unwind:literal) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($unwind)]
        $(#[$extra])*
        #[kani::stub(std::any::TypeId::of, crate::stubs::type_id_of)]
        #[kani::stub(std::intrinsics::type_id_eq, crate::stubs::type_id_eq)]
        #[kani::stub(std::sync::atomic::atomic_add, crate::stubs::atomic_add)]
        #[kani::stub(std::sync::atomic::atomic_sub, crate::stubs::atomic_sub)]
        #[kani::stub(std::sync::atomic::fence, crate::stubs::fence)]
        #[kani::stub(std::fmt::Arguments::as_str, crate::stubs::args_as_str)]
        #[kani::stub(std::fmt::Arguments::from_str, crate::stubs::args_from_str)]
        #[kani::stub(std::fmt::Arguments::estimated_capacity, crate::stubs::args_capacity)]
        #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::stubs::format::u64_display)]
        #[kani::stub(<u64 as std::fmt::Debug>::fmt, crate::stubs::format::u64_debug)]
        #[kani::stub(<i64 as std::fmt::Display>::fmt, crate::stubs::format::i64_display)]
        #[kani::stub(<i64 as std::fmt::Debug>::fmt, crate::stubs::format::i64_debug)]
        #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::stubs::format::u128_display)]
        #[kani::stub(<u128 as std::fmt::Debug>::fmt, crate::stubs::format::u128_debug)]
        #[kani::stub(<i128 as std::fmt::Display>::fmt, crate::stubs::format::i128_display)]
        #[kani::stub(<i128 as std::fmt::Debug>::fmt, crate::stubs::format::i128_debug)]
        #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::stubs::format::f64_display)]
        #[kani::stub(<f64 as std::fmt::Debug>::fmt, crate::stubs::format::f64_debug)]
        #[kani::stub(<char as std::fmt::Display>::fmt, crate::stubs::format::char_display)]
        #[kani::stub(<char as std::fmt::Debug>::fmt, crate::stubs::format::char_debug)]
        #[kani::stub(<str as std::fmt::Display>::fmt, crate::stubs::format::str_display)]
        #[kani::stub(<str as std::fmt::Debug>::fmt, crate::stubs::format::str_debug)]
        #[kani::stub(<bool as std::fmt::Display>::fmt, crate::stubs::format::bool_display)]
        pub fn check() {
            run();
            kani::cover!(true, "end of harness reached");
        }
    };
}

macro_rules! declare {
    ($extra:tt $($(#[$m:meta])* $name:ident [$unwind:literal] ($($quick:literal)*; $($thorough:literal)*) $body:block)*) => {
        $(
            $(#[$m])*
            #[cfg(any($(feature = $quick,)* $(feature = $thorough,)*))]
            pub mod $name {
                use super::*;

                pub fn run() $body

                check! { $extra $unwind }
            }
        )*

        pub const TABLE: &[(&str, fn())] = &[
            $(
                #[cfg(any($(feature = $quick,)* $(feature = $thorough,)*))]
                (concat!(module_path!(), "::", stringify!($name)), $name::run as fn()),
            )*
        ];
    };
}

/// A case the harness must be able to reach.
macro_rules! reach {
    ($cond:expr, $msg:literal) => {
        #[cfg(kani)]
        kani::cover!($cond, $msg);
    };
}

#[macro_use]
mod routes;
pub mod obs;
pub mod trace;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
#[cfg(feature = "has-owned")]
pub mod c08;
#[cfg(feature = "has-owned")]
pub mod c09;
pub mod c10;
#[cfg(feature = "has-serde")]
pub mod c11;
#[cfg(feature = "has-sval")]
pub mod c12;
#[cfg(all(feature = "has-sval", feature = "has-serde"))]
pub mod c13;
#[cfg(feature = "has-owned")]
pub mod c14;
#[cfg(feature = "has-owned")]
pub mod c15;
pub mod c16;
#[cfg(feature = "has-std")]
pub mod c17;
#[cfg(feature = "has-owned")]
pub mod c18;
pub mod c19;
#[cfg(feature = "has-owned")]
pub mod c20;
pub mod c21;

pub fn lookup(name: &str) -> Option<fn()> {
    let tables: &[&[(&str, fn())]] = &[
        c01::TABLE,
        c02::TABLE,
        c03::TABLE,
        c04::TABLE,
        c05::TABLE,
        c06::TABLE,
        c07::TABLE,
        #[cfg(feature = "has-owned")]
        c08::TABLE,
        #[cfg(feature = "has-owned")]
        c09::TABLE,
        c10::TABLE,
        #[cfg(feature = "has-serde")]
        c11::TABLE,
        #[cfg(feature = "has-sval")]
        c12::TABLE,
        #[cfg(all(feature = "has-sval", feature = "has-serde"))]
        c13::TABLE,
        #[cfg(feature = "has-owned")]
        c14::TABLE,
        #[cfg(feature = "has-owned")]
        c15::TABLE,
        c16::TABLE,
        #[cfg(feature = "has-std")]
        c17::TABLE,
        #[cfg(feature = "has-owned")]
        c18::TABLE,
        c19::TABLE,
        #[cfg(feature = "has-owned")]
        c20::TABLE,
        c21::TABLE,
    ];
    for t in tables {
        for (n, f) in *t {
            if n.strip_prefix("vbh::") == Some(name) {
                return Some(*f);
            }
        }
    }
    None
}
