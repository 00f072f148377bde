//! C01: integers convert exactly or not at all.

use crate::nd::any;
use crate::obs::*;
use value_bag::ValueBag;

macro_rules! ints {
    ($m:ident) => {
        $m!(u8); $m!(u16); $m!(u32); $m!(u64); $m!(usize);
        $m!(i8); $m!(i16); $m!(i32); $m!(i64); $m!(isize);
    };
}

harnesses! {
    /// Every value of every unsigned 8 to 64 bit type, by constructor, conversion, and option.
    direct_unsigned [4] ("min" "all";) {
        macro_rules! one { ($t:ty, $from:ident) => {{
            let v: $t = any();
            let want = v.int();
            int_casts(&ValueBag::$from(v), want);
            via_from!(v, |b: &ValueBag| int_casts(b, want));
        }}}
        one!(u8, from_u8); one!(u16, from_u16); one!(u32, from_u32); one!(u64, from_u64); one!(usize, from_usize);
    }

    /// Every value of every signed 8 to 64 bit type, by constructor, conversion, and option.
    direct_signed [4] ("min" "all";) {
        macro_rules! one { ($t:ty, $from:ident) => {{
            let v: $t = any();
            let want = v.int();
            int_casts(&ValueBag::$from(v), want);
            via_from!(v, |b: &ValueBag| int_casts(b, want));
        }}}
        one!(i8, from_i8); one!(i16, from_i16); one!(i32, from_i32); one!(i64, from_i64); one!(isize, from_isize);
    }

    /// Every value of the 128 bit types, by constructor and conversion.
    direct_wide [4] ("min" "all";) {
        let v: u128 = any();
        let want = v.int();
        int_casts(&ValueBag::from_u128_ref(&v), want);
        int_casts(&ValueBag::from(&v), want);
        int_casts(&ValueBag::from_option(Some(&v)), want);
        #[cfg(feature = "has-i128")]
        {
            int_casts(&ValueBag::from_u128(v), want);
            int_casts(&ValueBag::from(v), want);
        }

        let v: i128 = any();
        let want = v.int();
        int_casts(&ValueBag::from_i128_ref(&v), want);
        int_casts(&ValueBag::from(&v), want);
        int_casts(&ValueBag::from_option(Some(&v)), want);
        #[cfg(feature = "has-i128")]
        {
            int_casts(&ValueBag::from_i128(v), want);
            int_casts(&ValueBag::from(v), want);
        }
    }

    /// Every value of the 64 and 128 bit types, converted to every integer type.
    narrow [4] ("min" "all";) {
        let v: u64 = any(); int_try_from(&ValueBag::from_u64(v), v.int());
        let v: i64 = any(); int_try_from(&ValueBag::from_i64(v), v.int());
        let v: u128 = any(); int_try_from(&ValueBag::from_u128_ref(&v), v.int());
        let v: i128 = any(); int_try_from(&ValueBag::from_i128_ref(&v), v.int());
    }

    /// Every value of every integer type, captured by its type or deferred.
    captured [4] ("min"; "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            let want = v.int();
            via_capture!(v: $t, |b: &ValueBag| int_wide(b, want));
        }}}
        ints!(one);
        one!(u128);
        one!(i128);
    }

    /// Every value of every integer type, captured by its type when it's optional.
    captured_option [4] ("min"; "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            let want = v.int();
            via_option!(v: $t, |b: &ValueBag| int_wide(b, want));
        }}}
        ints!(one);
        one!(u128);
        one!(i128);
    }

    /// Every value of some of the integer types, captured by each trait, and deferred.
    captured_traits [4] ("all";) {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            let want = v.int();
            via_capture!(v: $t, |b: &ValueBag| int_wide(b, want));
            via_fill!(&v, |b: &ValueBag| int_casts(b, want));
        }}}
        one!(u8);
        one!(i64);
        one!(u128);
    }

    /// Every value of every integer type, streamed through `sval`, borrowed or deferred.
    sval [6] ("alf"; "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            let want = v.int();
            via_sval!(v, |b: &ValueBag| int_wide(b, want));
        }}}
        one!(u8); one!(u16); one!(u32); one!(u64); one!(u128);
        one!(i8); one!(i16); one!(i32); one!(i64); one!(i128);
    }

    /// Every value of every integer type, serialized through `serde`, borrowed or deferred.
    serde [6] ("alf"; "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            let want = v.int();
            via_serde!(v, |b: &ValueBag| int_wide(b, want));
        }}}
        ints!(one);
        one!(u128);
        one!(i128);
    }

    /// Every value of every 8 to 64 bit type, captured as an owned value.
    shared [4] ("own"; "big" "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            let want = v.int();
            via_shared!(v: $t, |b: &ValueBag| int_wide(b, want));
        }}}
        ints!(one);
    }

    /// Every value of the 128 bit types, captured as an owned value.
    shared_wide [4] ("big"; "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            let want = v.int();
            via_shared!(v: $t, |b: &ValueBag| int_wide(b, want));
        }}}
        one!(u128);
        one!(i128);
    }

    /// Every value of the 64 and 128 bit types, buffered and shared.
    owned [4] ("own" "big"; "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            let want = v.int();
            via_owned!(ValueBag::from(&v), |b: &ValueBag| int_casts(b, want));
        }}}
        one!(u64);
        one!(i64);
        one!(u128);
        one!(i128);
    }
}
