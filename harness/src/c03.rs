//! C03: booleans, characters and text convert exactly and only to their own kind.

use crate::nd::any;
use crate::obs::*;
use value_bag::ValueBag;

/// The conversions by trait of a bag holding a boolean, or not.
#[inline(always)]
fn try_from(b: &ValueBag, bool_: Option<bool>, char_: Option<char>, str_: Option<&str>) {
    assert!(ok(bool::try_from(b.clone())) == bool_, "a boolean changed in a conversion");
    assert!(ok(char::try_from(b.clone())) == char_, "a character changed in a conversion");
    match (ok(<&str>::try_from(b.clone())), str_) {
        (Some(got), Some(want)) => same_str(got, want),
        (None, None) => (),
        (Some(_), None) => panic!("a value that isn't text was converted to it"),
        (None, Some(_)) => panic!("text wasn't converted"),
    }
    #[cfg(feature = "has-alloc")]
    {
        match (ok(String::try_from(b.clone())), str_) {
            (Some(got), Some(want)) => same_str(&got, want),
            (None, None) => (),
            (Some(_), None) => panic!("a value that isn't text was converted to it"),
            (None, Some(_)) => panic!("text wasn't converted"),
        }
        match (ok(std::borrow::Cow::<str>::try_from(b.clone())), str_) {
            (Some(got), Some(want)) => same_str(&got, want),
            (None, None) => (),
            (Some(_), None) => panic!("a value that isn't text was converted to it"),
            (None, Some(_)) => panic!("text wasn't converted"),
        }
    }
}

/// Streams and serializes as a structure.
struct Structured(u8);

#[cfg(feature = "has-sval")]
impl ::sval::Value for Structured {
    fn stream<'sval, S: ::sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> ::sval::Result {
        s.map_begin(Some(1))?;
        s.map_key_begin()?;
        s.value("a")?;
        s.map_key_end()?;
        s.map_value_begin()?;
        s.value(&self.0)?;
        s.map_value_end()?;
        s.map_end()
    }
}

#[cfg(feature = "has-serde")]
impl serde_core::Serialize for Structured {
    fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde_core::ser::SerializeStruct;
        let mut s = s.serialize_struct("S", 1)?;
        s.serialize_field("a", &self.0)?;
        s.end()
    }
}

harnesses! {
    /// Both booleans and every character, by constructor, conversion, option, capture, and deferred.
    direct [4] ("min" "all";) {
        // The two are taken apart: the absence of an optional one is encoded as a third value.
        macro_rules! one { ($v:literal) => {{
            let v: bool = $v;
            bool_casts(&ValueBag::from_bool(v), v);
            try_from(&ValueBag::from_bool(v), Some(v), None, None);
            via_from!(v, |b: &ValueBag| bool_casts(b, v));
            via_capture!(v: bool, |b: &ValueBag| bool_light(b, v));
            via_option!(v: bool, |b: &ValueBag| bool_light(b, v));
            via_fill!(v, |b: &ValueBag| bool_light(b, v));
        }} }
        if any() {
            one!(true)
        } else {
            one!(false)
        }

        let v: char = any();
        char_casts(&ValueBag::from_char(v), v);
        try_from(&ValueBag::from_char(v), None, Some(v), None);
        char_casts(&ValueBag::from(v), v);
        char_casts(&ValueBag::from(&v), v);
        via_capture!(v: char, |b: &ValueBag| char_light(b, v));
        via_fill!(v, |b: &ValueBag| char_light(b, v));
        reach!(v as u32 > 0xFFFF, "outside the basic plane");
    }

    /// Every character, optional.
    option_char [4] ("min"; "all") {
        let v: char = any();
        let f = |b: &ValueBag| assert!(b.to_char() == Some(v), "a character changed in a conversion");
        f(&ValueBag::from(Some(v)));
        f(&ValueBag::from_option(Some(v)));
        f(&ValueBag::try_capture(&Some(v)).expect("an optional character wasn't captured"));
    }

    /// Every ASCII string of 0, 1 and 3 bytes, by constructor, conversion, option, capture and deferred.
    text [6] ("min" "alo"; "all") {
        macro_rules! one { ($n:literal) => {{
            let v = Ascii::<$n>::any();
            let s = v.get_static();
            let f = |b: &ValueBag| text_light(b, s);
            text_casts(&ValueBag::from_str(s), s);
            via_from!(s, f);
            f(&ValueBag::try_capture::<str>(s).expect("text wasn't captured"));
            f(&ValueBag::try_capture::<&'static str>(&s).expect("text wasn't captured"));
            f(&ValueBag::capture_display(&s));
            f(&ValueBag::try_capture::<Option<&'static str>>(&Some(s)).expect("text wasn't captured"));
            via_fill!(s, f);
        }} }
        one!(0); one!(1); one!(3);
    }

    /// Every ASCII string of 2 bytes, converted by trait.
    text_try_from [6] ("min" "alo"; "all") {
        let v = Ascii::<2>::any();
        let s = v.get_static();
        try_from(&ValueBag::from_str(s), None, None, Some(s));
    }

    /// Every string of one character, as text.
    text_char [6] ("min" "alo"; "all") {
        let c: char = any();
        let mut buf = [0; 4];
        let s: &str = c.encode_utf8(&mut buf);
        text_casts(&ValueBag::from(s), s);
        text_casts(&ValueBag::try_capture::<str>(unsafe { std::mem::transmute::<&str, &'static str>(s) }).unwrap(), s);
        reach!(s.len() == 4, "four bytes");
    }

    /// Every ASCII string of 2 bytes, in an owned string or a copy-on-write one.
    text_alloc [6] ("alo"; "all") {
        let v = Ascii::<2>::any();
        let s = v.get();
        let f = |b: &ValueBag| text_light(b, s);
        let o = String::from(s);
        f(&ValueBag::from(&o));
        f(&ValueBag::try_capture::<String>(&o).expect("text wasn't captured"));
        f(&ValueBag::capture_debug(&o));
        f(&ValueBag::capture_display(&o));
        let o = Some(o);
        f(&ValueBag::try_capture::<Option<String>>(&o).expect("text wasn't captured"));
        f(&ValueBag::from(&std::borrow::Cow::Borrowed(s)));
        let o: std::borrow::Cow<str> = std::borrow::Cow::Owned(o.unwrap());
        f(&ValueBag::from(&o));
    }

    /// Both booleans and every character, owned and shared.
    owned [4] ("own" "big"; "all") {
        let v: bool = any();
        via_owned!(ValueBag::from(v), |b: &ValueBag| bool_light(b, v));
        via_shared!(v: bool, |b: &ValueBag| bool_light(b, v));
        let v: char = any();
        via_owned!(ValueBag::from(v), |b: &ValueBag| char_light(b, v));
        via_shared!(v: char, |b: &ValueBag| char_light(b, v));
    }

    /// Every ASCII string of 0 and 3 bytes, owned and shared.
    owned_text [8] ("own" "big"; "inl" "all") {
        macro_rules! one { ($n:literal) => {{
            let v = Ascii::<$n>::any();
            via_owned!(ValueBag::from(v.get()), |b: &ValueBag| text_light(b, v.get()));
        }} }
        one!(0);
        one!(3);
    }

    /// Both booleans, and every ASCII string of 2 bytes, through `sval`.
    sval [6] ("alf"; "svo" "all") {
        let v: bool = any();
        via_sval!(v, |b: &ValueBag| bool_light(b, v));
        let v = Ascii::<2>::any();
        let s = v.get_static();
        via_sval!(s, |b: &ValueBag| text_light(b, s));
        text_light(&ValueBag::capture_sval2(&s), s);
        text_light(&ValueBag::from_sval2(&Some(s)), s);
        let o = String::from(s);
        text_light(&ValueBag::from_sval2(&o), s);
        not_number(&ValueBag::from_sval2(&s));
    }

    /// Characters through `sval`, one of each encoded length: a character is text there.
    sval_char [6] ("alf"; "svo" "all") {
        text_light(&ValueBag::from_sval2(&'a'), "a");
        text_light(&ValueBag::from_sval2(&'é'), "é");
        text_light(&ValueBag::from_sval2(&'€'), "€");
        text_light(&ValueBag::from_sval2(&'𐍈'), "𐍈");
    }

    /// Every character through `sval`.
    sval_any_char [6] (; "alf") {
        let v: char = any();
        let mut buf = [0; 4];
        let s: &str = v.encode_utf8(&mut buf);
        text_casts(&ValueBag::from_sval2(&v), s);
    }

    /// Both booleans, every character, and every ASCII string of 2 bytes, through `serde`.
    serde [6] ("alf"; "sdo" "all") {
        let v: bool = any();
        via_serde!(v, |b: &ValueBag| bool_light(b, v));
        let v: char = any();
        via_serde!(v, |b: &ValueBag| char_light(b, v));
        let v = Ascii::<2>::any();
        let s = v.get_static();
        via_serde!(s, |b: &ValueBag| text_light(b, s));
        text_light(&ValueBag::capture_serde1(&s), s);
        text_light(&ValueBag::from_serde1(&Some(s)), s);
        not_number(&ValueBag::from_serde1(&s));
    }

    /// Every number isn't anything else.
    numbers [4] ("min" "all";) {
        macro_rules! one { ($t:ty) => {{ let v: $t = any(); not_text(&ValueBag::from(&v)); }} }
        one!(u8); one!(u64); one!(i64); one!(u128); one!(i128); one!(f64); one!(f32);
        let v: u64 = any();
        try_from(&ValueBag::from(v), None, None, None);
    }

    /// Values that hold no primitive: empty, formatted, and failed ones, and errors.
    not_primitive [4] ("min" "own";) {
        nothing(&ValueBag::empty());
        nothing(&ValueBag::from(()));
        nothing(&ValueBag::from(None::<bool>));
        try_from(&ValueBag::empty(), None, None, None);
        let v = Ascii::<1>::any();
        let s = v.get();
        nothing(&ValueBag::from_debug(&s));
        nothing(&ValueBag::from_display(&s));
        nothing(&ValueBag::from_dyn_debug(&s));
        nothing(&ValueBag::from_dyn_display(&s));
        nothing(&ValueBag::from_debug(&true));
        nothing(&ValueBag::from_display(&'a'));
        nothing(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_debug(1u8)));
        nothing(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_display("1")));
        nothing(&ValueBag::from_fill(&|_: value_bag::fill::Slot| Err(value_bag::Error::msg("no"))));
        #[cfg(feature = "has-std")]
        {
            let e = std::fmt::Error;
            nothing(&ValueBag::capture_error(&e));
            nothing(&ValueBag::from_dyn_error(&e));
            nothing(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_error(std::fmt::Error)));
            nothing(&ValueBag::capture_shared_error(std::fmt::Error));
        }
    }

    /// Formatted values hold no primitive when they're shared, either.
    not_primitive_shared [6] ("alo";) {
        let v = Ascii::<1>::any();
        nothing(&ValueBag::capture_shared_debug(String::from(v.get())));
        nothing(&ValueBag::capture_shared_display(String::from(v.get())));
    }

    /// Sequences and structures hold no primitive.
    structured [6] ("alf";) {
        let v: [u8; 1] = [any()];
        #[cfg(feature = "has-seq")]
        {
            nothing(&ValueBag::from_seq_slice(&v));
            nothing(&ValueBag::from_seq_slice(&["a"]));
        }
        let x = Structured(any());
        nothing(&ValueBag::from_sval2(&x));
        nothing(&ValueBag::capture_sval2(&x));
        nothing(&ValueBag::from_serde1(&x));
        nothing(&ValueBag::capture_serde1(&x));
        nothing(&ValueBag::from_sval2(&v));
        nothing(&ValueBag::from_serde1(&v));
    }
}
