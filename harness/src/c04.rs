//! C04: capturing by type recognises exactly the primitive types.

use crate::nd::any;
use crate::obs::*;
use value_bag::ValueBag;

/// How the primitives of a type are visited.
trait Prim: Copy {
    const KIND: Kind;
    fn bits(self) -> u128;
}

macro_rules! prim {
    ($($t:ty: $k:ident, $as:ty;)*) => {$(
        impl Prim for $t {
            const KIND: Kind = Kind::$k;
            #[inline(always)]
            fn bits(self) -> u128 {
                self as $as as u128
            }
        }
    )*};
}

prim! {
    u8: U64, u64; u16: U64, u64; u32: U64, u64; u64: U64, u64; usize: U64, u64; u128: U128, u128;
    i8: I64, i128; i16: I64, i128; i32: I64, i128; i64: I64, i128; isize: I64, i128; i128: I128, i128;
    bool: Bool, u8; char: Char, u32;
}

impl Prim for f64 {
    const KIND: Kind = Kind::F64;
    #[inline(always)]
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}

impl Prim for f32 {
    const KIND: Kind = Kind::F64;
    #[inline(always)]
    fn bits(self) -> u128 {
        (self as f64).to_bits() as u128
    }
}

#[inline(always)]
fn is<T: Prim>(b: &ValueBag, v: T) {
    visits(b, T::KIND, v.bits());
}

#[inline(always)]
fn taken<'v, T: ?Sized + 'static>(v: &'v T) -> ValueBag<'v> {
    match ValueBag::try_capture(v) {
        Some(b) => b,
        None => panic!("a primitive wasn't captured"),
    }
}

macro_rules! refused {
    ($($v:expr),* $(,)?) => {$({
        let v = $v;
        assert!(ValueBag::try_capture(&v).is_none(), "a value that isn't a primitive was captured as one");
    })*};
}

macro_rules! refused_owned {
    ($($v:expr),* $(,)?) => {$({
        let v = $v;
        assert!(ValueBag::try_capture_owned(&v).is_none(), "a value that isn't a primitive was captured as one");
    })*};
}

#[repr(transparent)]
#[derive(Clone, Copy, Debug)]
struct Same<T>(T);

harnesses! {
    /// Every value of every primitive type.
    primitive [4] ("min"; "all") {
        macro_rules! one { ($($t:ty)*) => {$({
            let v: $t = any();
            is(&taken(&v), v);
        })*} }
        one!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128 bool char f64);
        let v: f32 = any();
        crate::nd::assume(!v.is_nan());
        is(&taken(&v), v);
    }

    /// Every present or missing value of every optional unsigned or floating point type.
    option [4] ("min"; "all") {
        macro_rules! one { ($($t:ty)*) => {$({
            let v: $t = any();
            let o = Some(v);
            is(&taken(&o), v);
            let o: Option<$t> = None;
            visits(&taken(&o), Kind::Empty, 0);
            assert!(taken(&o).is_empty(), "a missing value isn't empty");
        })*} }
        one!(u8 u16 u32 u64 usize u128 f64);
        let v: f32 = any();
        crate::nd::assume(!v.is_nan());
        is(&taken(&Some(v)), v);
        visits(&taken(&None::<f32>), Kind::Empty, 0);
        is(&taken(&Some(true)), true);
        is(&taken(&Some(false)), false);
        visits(&taken(&None::<bool>), Kind::Empty, 0);
        is(&taken(&Some('é')), 'é');
        visits(&taken(&None::<char>), Kind::Empty, 0);
        visits(&taken(&None::<&'static str>), Kind::Empty, 0);
        #[cfg(feature = "has-alloc")]
        visits(&taken(&None::<String>), Kind::Empty, 0);
    }

    /// Every present or missing value of every optional signed type.
    option_signed [4] ("min"; "all") {
        macro_rules! one { ($($t:ty)*) => {$({
            let v: $t = any();
            let o = Some(v);
            is(&taken(&o), v);
            let o: Option<$t> = None;
            visits(&taken(&o), Kind::Empty, 0);
        })*} }
        one!(i8 i16 i32 i64 isize i128);
    }

    /// Every optional character, present.
    option_char [4] ("min";) {
        let v: char = any();
        assert!(taken(&Some(v)).to_char() == Some(v), "a character changed when it was captured");
    }

    /// Every ASCII string of 2 bytes, in each type of string.
    text [4] ("alo" "min"; "all") {
        let v = Ascii::<2>::any();
        let s = v.get_static();
        visits(&taken::<str>(s), Kind::BorrowedStr, str_bits(s));
        visits(&taken::<&'static str>(&s), Kind::BorrowedStr, str_bits(s));
        visits(&taken(&Some(s)), Kind::BorrowedStr, str_bits(s));
        #[cfg(feature = "has-alloc")]
        {
            let o = String::from(s);
            visits(&taken(&o), Kind::BorrowedStr, str_bits(s));
            let o = Some(o);
            visits(&taken(&o), Kind::BorrowedStr, str_bits(s));
        }
    }

    /// Types that have the same contents as the primitive ones.
    lookalikes [4] ("min";) {
        let v: u64 = any();
        let b: u8 = any();
        refused!(
            Same(b), Same(v as i32), Same(v as u128), Same(1f64), Same('a'), Same(true), Same("a"),
            [b; 1], [b; 4], v.to_ne_bytes(), (b,), (v,), (),
        );
        assert!(ValueBag::try_capture::<[u8]>(&[b]).is_none(), "a value that isn't a primitive was captured as one");
    }

    /// Types that are wrapped otherwise than by one option.
    lookalikes_nested [4] ("min";) {
        let v: u64 = any();
        let b: u8 = any();
        refused!(
            Some(Some(b)), Some(Same(v)), Some(()), None::<[u8; 2]>,
            std::num::Wrapping(v), std::num::NonZeroU8::new(1).unwrap(), std::num::NonZeroU8::new(b),
            std::time::Duration::from_secs(1), std::cmp::Ordering::Less, Obj(b), Some(Obj(b)),
        );
        let r: &'static u64 = unsafe { std::mem::transmute(&v) };
        refused!(r, Some(r));
        let s: &'static &'static str = &"a";
        refused!(s, Some(s));
    }

    /// Types that resemble the primitive ones, on the heap or owned.
    lookalikes_owned [4] ("alo";) {
        let v: u64 = any();
        let b: u8 = any();
        refused!(Vec::<u8>::new(), Box::new(b), Box::<str>::from("a"), std::borrow::Cow::Borrowed("a"));
        refused_owned!(Same(b), Same(v), [b; 1], v.to_ne_bytes(), (b,), (), Some(Some(b)), Some(Same(v)), Box::new(b), Obj(b));
    }

    /// Values of any other type are left to the trait they're captured with.
    left [4] ("min" "own"; "all") {
        let v = Obj::any();
        let t = [b'?', v.0];
        let t = unsafe { std::str::from_utf8_unchecked(&t) };
        let b = ValueBag::capture_debug(&v);
        visits(&b, Kind::Any, 0);
        debugged::<2>(&b, plain()).holds(t);
        assert!(matches!(b.downcast_ref::<Obj>(), Some(o) if *o == v), "a captured value was lost");
        let t = [b'!', v.0];
        let t = unsafe { std::str::from_utf8_unchecked(&t) };
        let b = ValueBag::capture_display(&v);
        visits(&b, Kind::Any, 0);
        displayed::<2>(&b, plain()).holds(t);
        assert!(matches!(b.downcast_ref::<Obj>(), Some(o) if *o == v), "a captured value was lost");
        #[cfg(feature = "has-owned")]
        {
            visits(&ValueBag::capture_shared_debug(v), Kind::Any, 0);
            visits(&ValueBag::capture_shared_display(v), Kind::Any, 0);
        }
    }

    /// Every value of every numeric type, a boolean and a character, captured by each trait.
    traits [4] ("min" "all";) {
        macro_rules! one { ($($t:tt)*) => {$({
            let v: $t = any();
            via_capture!(v: $t, |b: &ValueBag| is(b, v));
        })*} }
        #[cfg(not(feature = "has-sval"))]
        one!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128 bool char f64);
        #[cfg(feature = "has-sval")]
        one!(u16 u128 i32 f64);
    }

    /// Every value of every numeric type, both booleans and every character, owned.
    owned [4] ("own"; "big" "all") {
        macro_rules! one { ($($t:ty)*) => {$({
            let v: $t = any();
            match ValueBag::try_capture_owned(&v) {
                Some(b) => is(&b, v),
                None => panic!("a primitive wasn't captured"),
            }
        })*} }
        one!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize bool char f64);
        #[cfg(feature = "has-i128")]
        one!(u128 i128);
        let v: f32 = any();
        crate::nd::assume(!v.is_nan());
        is(&ValueBag::try_capture_owned(&v).unwrap(), v);
    }

    /// Every value of every optional numeric type, present or missing, owned.
    owned_option [4] ("own"; "big" "all") {
        macro_rules! one { ($($t:ty)*) => {$({
            let v: $t = any();
            match ValueBag::try_capture_owned(&Some(v)) {
                Some(b) => is(&b, v),
                None => panic!("an optional primitive wasn't captured"),
            }
            match ValueBag::try_capture_owned(&None::<$t>) {
                Some(b) => visits(&b, Kind::Empty, 0),
                None => panic!("an optional primitive wasn't captured"),
            }
        })*} }
        one!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f64);
        #[cfg(feature = "has-i128")]
        one!(u128 i128);
        is(&ValueBag::try_capture_owned(&Some(true)).unwrap(), true);
        is(&ValueBag::try_capture_owned(&Some('é')).unwrap(), 'é');
        visits(&ValueBag::try_capture_owned(&None::<bool>).unwrap(), Kind::Empty, 0);
        visits(&ValueBag::try_capture_owned(&None::<char>).unwrap(), Kind::Empty, 0);
    }

    /// Every value of the 128 bit types, owned, where they can be stored.
    owned_wide [4] ("big"; "all") {
        macro_rules! one { ($($t:ty)*) => {$({
            let v: $t = any();
            match ValueBag::try_capture_owned(&v) {
                Some(b) => is(&b, v),
                None => panic!("a primitive wasn't captured"),
            }
            is(&ValueBag::try_capture_owned(&Some(v)).unwrap(), v);
            is(&ValueBag::capture_shared_debug(v), v);
        })*} }
        one!(u128 i128);
    }

    /// Every value of some of the types, captured as shared by each trait.
    shared [4] ("own" "alf"; "big" "all") {
        macro_rules! one { ($($t:tt)*) => {$({
            let v: $t = any();
            via_shared!(v: $t, |b: &ValueBag| is(b, v));
        })*} }
        one!(u8 i64 f64 char);
    }
}
