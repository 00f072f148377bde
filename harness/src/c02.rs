//! C02: numbers convert to floating point without silent loss.

use crate::nd::any;
use crate::obs::*;
use value_bag::ValueBag;

/// `want` is `v`, converted by the language.
#[inline(always)]
fn strict(b: &ValueBag, want: Int, fits32: bool) {
    let got = b.to_f64();
    if fits32 {
        assert!(got.is_some(), "an integer that fits in 32 bits wasn't converted");
    }
    if let Some(got) = got {
        assert!(got.is_finite() && got.abs() <= 18446744073709551616.0, "an integer changed in a conversion");
        assert!(!(got < 0.0) || want.neg, "an integer changed in a conversion");
        assert!(got.abs() as u128 == want.mag, "an integer changed in a conversion");
    }
}

macro_rules! int {
    ($v:ident, $b:expr) => {{
        let b: &ValueBag = $b;
        let i = $v.int();
        #[allow(unused_comparisons)]
        let signed = $v & 0 > !($v & 0);
        strict(b, i, i.fits(signed, 32));
        same_f64(b.as_f64(), $v as f64);
    }};
}

harnesses! {
    /// Every bit pattern of the 64 bit floats, by constructor, conversion, option, capture, and deferred: bit for bit.
    float64 [4] ("min" "all";) {
        let v: f64 = any();
        let f = |b: &ValueBag| {
            assert!(b.to_f64().map(f64::to_bits) == Some(v.to_bits()), "a floating point number changed in a conversion");
            assert!(b.as_f64().to_bits() == v.to_bits(), "a floating point number changed in a conversion");
            assert!(ok(f64::try_from(b.clone())).map(f64::to_bits) == Some(v.to_bits()), "a floating point number changed in a conversion");
            not_integer(b);
            not_text(b);
        };
        f(&ValueBag::from_f64(v));
        via_from!(v, f);
        via_capture!(v: f64, f);
        via_fill!(v, f);
        reach!(v.is_nan(), "not a number");
        reach!(v == 0.0 && v.is_sign_negative(), "negative zero");
    }

    /// Every bit pattern of the 32 bit floats, by constructor, conversion, option, capture, and deferred: widened.
    float32 [4] ("min" "all";) {
        let v: f32 = any();
        let f = |b: &ValueBag| {
            float_casts(b, v as f64);
            not_integer(b);
            not_text(b);
        };
        f(&ValueBag::from_f32(v));
        via_from!(v, f);
        via_capture!(v: f32, f);
        via_fill!(v, f);
        reach!(v != 0.0 && v.abs() < f32::MIN_POSITIVE, "subnormal");
    }

    /// Every bit pattern of the floats, optional, captured by type.
    option [4] ("min" "all";) {
        let v: f64 = any();
        via_option!(v: f64, |b: &ValueBag| float_casts(b, v));
        let v: f32 = any();
        via_option!(v: f32, |b: &ValueBag| float_casts(b, v as f64));
    }

    /// Every bit pattern of the floats, through the frameworks.
    frameworks [6] ("alf"; "all" "svo" "sdo") {
        let v: f64 = any();
        #[cfg(feature = "has-sval")]
        via_sval!(v, |b: &ValueBag| { float_casts(b, v); not_integer(b) });
        #[cfg(feature = "has-serde")]
        via_serde!(v, |b: &ValueBag| { float_casts(b, v); not_integer(b) });
        let v: f32 = any();
        #[cfg(feature = "has-sval")]
        via_sval!(v, |b: &ValueBag| { float_casts(b, v as f64); not_integer(b) });
        #[cfg(feature = "has-serde")]
        via_serde!(v, |b: &ValueBag| { float_casts(b, v as f64); not_integer(b) });
    }

    /// Every bit pattern of the floats, owned and shared.
    owned [4] ("own" "big"; "all") {
        let v: f64 = any();
        via_owned!(ValueBag::from(v), |b: &ValueBag| { float_casts(b, v); not_integer(b) });
        via_shared!(v: f64, |b: &ValueBag| { float_casts(b, v); not_integer(b) });
        let v: f32 = any();
        via_owned!(ValueBag::from(v), |b: &ValueBag| { float_casts(b, v as f64); not_integer(b) });
        via_shared!(v: f32, |b: &ValueBag| { float_casts(b, v as f64); not_integer(b) });
    }

    /// Every integer of up to 64 bits, by constructor.
    integers [4] ("min" "all";) {
        macro_rules! one { ($t:ty, $from:ident) => {{ let v: $t = any(); int!(v, &ValueBag::$from(v)); }} }
        one!(u8, from_u8); one!(u16, from_u16); one!(u32, from_u32); one!(u64, from_u64); one!(usize, from_usize);
        one!(i8, from_i8); one!(i16, from_i16); one!(i32, from_i32); one!(i64, from_i64); one!(isize, from_isize);
    }

    /// Every integer of 128 bits, by reference.
    integers_wide [4] ("min" "all";) {
        let v: u128 = any();
        int!(v, &ValueBag::from(&v));
        int!(v, &ValueBag::from_option(Some(&v)));
        let v: i128 = any();
        int!(v, &ValueBag::from(&v));
        int!(v, &ValueBag::from_option(Some(&v)));
    }

    /// Every integer of the 64 and 128 bit types, captured and deferred.
    integers_captured [4] ("min"; "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            int!(v, &ValueBag::try_capture(&v).unwrap());
        }} }
        one!(u64); one!(i64); one!(u128); one!(i128); one!(u32); one!(i32);
        let v: u64 = any();
        via_fill!(v, |b: &ValueBag| int!(v, b));
        let v: i64 = any();
        via_fill!(v, |b: &ValueBag| int!(v, b));
    }

    /// Every integer of the 64 and 128 bit types, through the frameworks.
    integers_frameworks [6] ("alf"; "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            #[cfg(feature = "has-sval")]
            int!(v, &ValueBag::from_sval2(&v));
            #[cfg(feature = "has-serde")]
            int!(v, &ValueBag::from_serde1(&v));
        }} }
        one!(u64); one!(i64); one!(u128); one!(i128);
    }

    /// Every integer of the 64 and 128 bit types, owned and shared.
    integers_owned [4] ("own" "big"; "all") {
        macro_rules! one { ($t:tt) => {{
            let v: $t = any();
            via_owned!(ValueBag::from(&v), |b: &ValueBag| int!(v, b));
        }} }
        one!(u64); one!(i64); one!(u128); one!(i128);
    }

    /// Every kind of value that isn't a number.
    others [4] ("min" "all";) {
        let v: bool = any();
        not_number(&ValueBag::from(v));
        let v: char = any();
        not_number(&ValueBag::from(v));
        let v = Ascii::<3>::any();
        not_number(&ValueBag::from(v.get()));
        not_number(&ValueBag::from_debug(&0u8));
        not_number(&ValueBag::from_display(&0u8));
        not_number(&ValueBag::empty());
        #[cfg(feature = "has-seq")]
        not_number(&ValueBag::from(&[1u8, 2u8]));
    }
}
