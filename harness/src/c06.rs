//! C06: a visit makes one faithful call and returns its result.

use crate::nd::any;
use crate::obs::*;
use value_bag::{visit::Visit, Error, ValueBag};

/// The result of a visit is the result of its one call.
#[inline(always)]
fn returned(r: Result<(), Error>, fail: bool) {
    match r {
        Ok(()) => assert!(!fail, "the visitor's error was lost"),
        Err(e) => {
            assert!(fail, "a visit failed though the visitor didn't");
            displayed::<1>(&e, plain()).holds(MINE);
            std::mem::forget(e);
        }
    }
}

/// A visit makes the one call `kind` with `bits`, and returns its result.
#[inline(always)]
fn calls(b: &ValueBag, kind: Kind, bits: u128) -> Log {
    // The solver does better when it knows which.
    if any() {
        calls_with(b, kind, bits, true)
    } else {
        calls_with(b, kind, bits, false)
    }
}

#[inline(always)]
fn calls_with(b: &ValueBag, kind: Kind, bits: u128, fail: bool) -> Log {
    let mut log = Log::failing(fail);
    let r = b.visit(&mut log);
    assert!(log.calls == 1, "a visit didn't make exactly one call");
    assert!(log.kind == kind, "a value was visited as another kind");
    assert!(log.bits == bits, "a value changed when it was visited");
    returned(r, fail);
    log
}

/// A visitor that only has the fallback.
struct Fallback<F> {
    calls: u8,
    fail: bool,
    f: F,
}

impl<'v, F: Fn(&ValueBag)> Visit<'v> for Fallback<F> {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        self.calls += 1;
        (self.f)(&v);
        if self.fail {
            Err(Error::msg(MINE))
        } else {
            Ok(())
        }
    }
}

/// A visit by a visitor that only has the fallback calls it once, with what passes `f`.
#[inline(always)]
fn falls_back(b: &ValueBag, f: impl Fn(&ValueBag)) {
    if any() {
        falls_back_with(b, f, true)
    } else {
        falls_back_with(b, f, false)
    }
}

#[inline(always)]
fn falls_back_with(b: &ValueBag, f: impl Fn(&ValueBag), fail: bool) {
    let mut v = Fallback { calls: 0, fail, f };
    let r = b.visit(&mut v);
    assert!(v.calls == 1, "a visit didn't make exactly one call");
    returned(r, fail);
}

/// A visitor that has the fallback and text.
struct Text {
    calls: u8,
    bits: u128,
}

impl<'v> Visit<'v> for Text {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        panic!("text was visited as something else")
    }

    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.calls += 1;
        self.bits = str_bits(v);
        Ok(())
    }
}

#[inline(always)]
fn text(b: &ValueBag, want: &str) {
    let mut t = Text { calls: 0, bits: 0 };
    assert!(ok(b.visit(&mut t)).is_some(), "a visit failed though the visitor didn't");
    assert!(t.calls == 1, "a visit didn't make exactly one call");
    assert!(t.bits == str_bits(want), "a value changed when it was visited");
}

harnesses! {
    /// Every value of every kind of primitive, converted directly, with a visitor that may fail.
    primitive [6] ("min" "own"; "all") {
        let v: u64 = any();
        calls(&ValueBag::from(v), Kind::U64, v as u128);
        let v: i64 = any();
        calls(&ValueBag::from(v), Kind::I64, v as i128 as u128);
        let v: u128 = any();
        calls(&ValueBag::from(&v), Kind::U128, v);
        let v: i128 = any();
        calls(&ValueBag::from(&v), Kind::I128, v as u128);
        let v: f64 = any();
        calls(&ValueBag::from(v), Kind::F64, v.to_bits() as u128);
        let v: bool = any();
        calls(&ValueBag::from(v), Kind::Bool, v as u128);
        let v: char = any();
        calls(&ValueBag::from(v), Kind::Char, v as u128);
        calls(&ValueBag::empty(), Kind::Empty, 0);
    }

    /// Every value of each width of integer and float.
    narrow [6] ("min"; "all") {
        macro_rules! one { ($k:ident: $($t:ty)*) => {$({
            let v: $t = any();
            calls(&ValueBag::from(v), Kind::$k, v as i128 as u128);
        })*} }
        one!(U64: u8 u16 u32 usize);
        one!(I64: i8 i16 i32 isize);
        let v: f32 = any();
        crate::nd::assume(!v.is_nan());
        calls(&ValueBag::from(v), Kind::F64, (v as f64).to_bits() as u128);
    }

    /// Every ASCII string of 2 bytes, with a visitor that may fail.
    borrowed_text [6] ("min" "own"; "all") {
        let v = Ascii::<2>::any();
        let s = v.get();
        let log = calls(&ValueBag::from(s), Kind::BorrowedStr, str_bits(s));
        assert!(log.ptr == s.as_ptr() && log.len == 2, "borrowed text was copied");
        calls(&ValueBag::from(""), Kind::BorrowedStr, 0);
    }

    /// Values without a primitive form.
    formatted [6] ("min" "own"; "all") {
        let v = Obj::any();
        calls(&ValueBag::from_debug(&v), Kind::Any, 0);
        calls(&ValueBag::from_display(&v), Kind::Any, 0);
        calls(&ValueBag::capture_debug(&v), Kind::Any, 0);
        calls(&ValueBag::capture_display(&v), Kind::Any, 0);
        let d = [b'?', v.0];
        let d = unsafe { std::str::from_utf8_unchecked(&d) };
        falls_back(&ValueBag::from_debug(&v), |b| debugged::<2>(b, plain()).holds(d));
        falls_back(&ValueBag::capture_debug(&v), |b| debugged::<2>(b, plain()).holds(d));
        let d = [b'!', v.0];
        let d = unsafe { std::str::from_utf8_unchecked(&d) };
        falls_back(&ValueBag::from_display(&v), |b| displayed::<2>(b, plain()).holds(d));
        falls_back(&ValueBag::capture_display(&v), |b| displayed::<2>(b, plain()).holds(d));
    }

    /// Sequences of any 2 elements.
    seq [6] ("alo";) {
        let a: [u8; 2] = [any(), any()];
        let s: &[u8] = &a;
        let same = |b: &ValueBag| match b.to_u64_seq::<Items<u64, 4>>() {
            Some(i) => assert!(i.len == 2 && i.at[0] == Some(a[0] as u64) && i.at[1] == Some(a[1] as u64), "a sequence changed when it was visited"),
            None => panic!("a sequence was visited as something else"),
        };
        calls(&ValueBag::from_seq_slice(&s), Kind::Any, 0);
        falls_back(&ValueBag::from_seq_slice(&s), same);
    }

    /// Every value of every kind of primitive, with a visitor that only has the fallback, that may fail.
    fallback [6] ("min"; "own" "all") {
        let v: u64 = any();
        falls_back(&ValueBag::from(v), |b| assert!(b.to_u64() == Some(v), "a value changed when it was visited"));
        let v: i64 = any();
        falls_back(&ValueBag::from(v), |b| assert!(b.to_i64() == Some(v), "a value changed when it was visited"));
        let v: u128 = any();
        falls_back(&ValueBag::from(&v), |b| assert!(b.to_u128() == Some(v), "a value changed when it was visited"));
        let v: i128 = any();
        falls_back(&ValueBag::from(&v), |b| assert!(b.to_i128() == Some(v), "a value changed when it was visited"));
        let v: f64 = any();
        falls_back(&ValueBag::from(v), |b| match b.to_f64() { Some(f) => same_f64(f, v), None => panic!("a value changed when it was visited") });
        falls_back(&ValueBag::from(true), |b| assert!(b.to_bool() == Some(true), "a value changed when it was visited"));
        falls_back(&ValueBag::from(false), |b| assert!(b.to_bool() == Some(false), "a value changed when it was visited"));
        falls_back(&ValueBag::empty(), |b| assert!(b.is_empty(), "a value changed when it was visited"));
        let v = Ascii::<2>::any();
        falls_back(&ValueBag::from(v.get()), |b| assert!(matches!(b.to_borrowed_str(), Some(s) if str_bits(s) == str_bits(v.get())), "a value changed when it was visited"));
    }

    /// Every ASCII character, and one of each width, and every ASCII string of 2 bytes, where the visitor only has text.
    as_text [6] ("min"; "all") {
        let v: u8 = any();
        crate::nd::assume(v < 128);
        let a = [v];
        text(&ValueBag::from(v as char), unsafe { std::str::from_utf8_unchecked(&a) });
        text(&ValueBag::from('é'), "é");
        text(&ValueBag::from('€'), "€");
        text(&ValueBag::from('🦀'), "🦀");
        let v = Ascii::<2>::any();
        text(&ValueBag::from(v.get()), v.get());
    }

    /// A visitor that's a trait object.
    dynamic [6] ("min"; "own") {
        let v: u64 = any();
        let mut log = Log::new();
        {
            let d: &mut dyn Visit = &mut log;
            assert!(ok(ValueBag::from(v).visit(d)).is_some(), "a visit failed though the visitor didn't");
        }
        assert!(log.calls == 1 && log.kind == Kind::U64 && log.bits == v as u128, "a value changed when it was visited");
        let mut log = Log::new();
        {
            let d: &mut dyn Visit = &mut log;
            assert!(ok(ValueBag::from("a").visit(d)).is_some(), "a visit failed though the visitor didn't");
        }
        assert!(log.calls == 1 && log.kind == Kind::BorrowedStr, "a value changed when it was visited");
    }

    /// An error with any contents.
    error [6] ("own"; "all") {
        let v = Obj::any();
        let p = &v as *const Obj as *const u8;
        let log = calls(&ValueBag::from_dyn_error(&v), Kind::BorrowedError, 0);
        assert!(log.ptr == p, "another error was visited");
        let log = calls(&ValueBag::capture_error(&v), Kind::BorrowedError, 0);
        assert!(log.ptr == p, "another error was visited");
        let log = calls(&ValueBag::capture_shared_error(v), Kind::Error, 0);
        falls_back(&ValueBag::from_dyn_error(&v), |b| match b.to_borrowed_error() {
            Some(e) => assert!(std::ptr::eq(e as *const dyn std::error::Error as *const u8, p), "another error was visited"),
            None => panic!("an error was visited as something else"),
        });
        falls_back(&ValueBag::capture_shared_error(v), |b| match b.to_borrowed_error() {
            Some(e) => assert!(matches!(e.downcast_ref::<Obj>(), Some(o) if *o == v), "another error was visited"),
            None => panic!("an error was visited as something else"),
        });
    }

    /// Every value of some kinds of primitive, shared or buffered.
    owned [6] ("own" "alo"; "all" "big") {
        let v: u64 = any();
        calls(&ValueBag::capture_shared_debug(v), Kind::U64, v as u128);
        let v: char = any();
        calls(&ValueBag::from(v).to_owned().by_ref(), Kind::Char, v as u128);
        let v: i128 = any();
        calls(&ValueBag::from(&v).to_owned().by_ref(), Kind::I128, v as u128);
        calls(&ValueBag::empty().to_owned().by_ref(), Kind::Empty, 0);
        calls(&ValueBag::empty().to_shared().by_ref(), Kind::Empty, 0);
    }

    /// Every ASCII string of 2 bytes, buffered.
    owned_text [6] ("own" "alo" "inl"; "all" "big") {
        let v = Ascii::<2>::any();
        let s = v.get();
        let o = ValueBag::from(s).to_owned();
        calls(&o.by_ref(), Kind::BorrowedStr, str_bits(s));
        let o = o.into_shared();
        calls(&o.by_ref(), Kind::BorrowedStr, str_bits(s));
    }

    /// Every value of every kind of primitive, deferred.
    fill [6] ("min"; "own" "all") {
        macro_rules! one { ($v:expr, $k:ident, $b:expr) => {{
            calls(&ValueBag::from_fill(&|s: value_bag::fill::Slot| s.fill_any($v)), Kind::$k, $b);
        }} }
        let v: u64 = any();
        one!(v, U64, v as u128);
        let v: i32 = any();
        one!(v, I64, v as i128 as u128);
        let v: f64 = any();
        one!(v, F64, v.to_bits() as u128);
        let v: char = any();
        one!(v, Char, v as u128);
        one!((), Empty, 0);
        let v = Ascii::<2>::any();
        let s = v.get_static();
        calls(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_any(s)), Kind::BorrowedStr, str_bits(s));
        let v = Obj::any();
        calls(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_debug(v)), Kind::Any, 0);
        calls(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_display(v)), Kind::Any, 0);
    }

    /// Every value of every kind of primitive, streamed through `sval`.
    sval [6] ("alf"; "all" "svo") {
        macro_rules! one { ($v:expr, $k:ident, $b:expr) => {{
            calls(&ValueBag::from_sval2(&$v), Kind::$k, $b);
        }} }
        let v: u64 = any();
        one!(v, U64, v as u128);
        calls(&ValueBag::from_dyn_sval2(&v), Kind::U64, v as u128);
        calls(&ValueBag::from_fill(&|s: value_bag::fill::Slot| s.fill_sval2(v)), Kind::U64, v as u128);
        let v: i64 = any();
        one!(v, I64, v as i128 as u128);
        let v: u128 = any();
        one!(v, U128, v);
        let v: i128 = any();
        one!(v, I128, v as u128);
        let v: f64 = any();
        one!(v, F64, v.to_bits() as u128);
        let v: bool = any();
        one!(v, Bool, v as u128);
        one!((), Empty, 0);
    }

    /// Every ASCII string of 2 bytes, and a structured value, streamed through `sval`.
    sval_text [6] ("alf"; "all" "svo") {
        let v = Ascii::<2>::any();
        let s = v.get();
        calls(&ValueBag::from_sval2(&s), Kind::BorrowedStr, str_bits(s));
        calls(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_sval2(s)), Kind::Str, str_bits(s));
        let v: (u8, u8) = (any(), any());
        calls(&ValueBag::from_sval2(&v), Kind::Any, 0);
        calls(&ValueBag::capture_sval2(&[v.0, v.1]), Kind::Any, 0);
    }

    /// Every value of every kind of primitive, serialized through `serde`.
    serde [6] ("alf"; "all" "sdo") {
        macro_rules! one { ($v:expr, $k:ident, $b:expr) => {{
            calls(&ValueBag::from_serde1(&$v), Kind::$k, $b);
        }} }
        let v: u64 = any();
        one!(v, U64, v as u128);
        calls(&ValueBag::from_fill(&|s: value_bag::fill::Slot| s.fill_serde1(v)), Kind::U64, v as u128);
        let v: i64 = any();
        one!(v, I64, v as i128 as u128);
        let v: u128 = any();
        one!(v, U128, v);
        let v: i128 = any();
        one!(v, I128, v as u128);
        let v: f64 = any();
        one!(v, F64, v.to_bits() as u128);
        let v: bool = any();
        one!(v, Bool, v as u128);
        let v: char = any();
        one!(v, Char, v as u128);
        one!((), Empty, 0);
        one!(None::<u8>, Empty, 0);
        let v: u8 = any();
        one!(Some(Some(v)), U64, v as u128);
    }

    /// Every ASCII string of 2 bytes, and a structured value, serialized through `serde`.
    serde_text [6] ("alf"; "all" "sdo") {
        let v = Ascii::<2>::any();
        let s = v.get();
        calls(&ValueBag::from_serde1(&s), Kind::Str, str_bits(s));
        let v: (u8, u8) = (any(), any());
        calls(&ValueBag::from_serde1(&v), Kind::Any, 0);
        calls(&ValueBag::capture_serde1(&[v.0, v.1]), Kind::Any, 0);
    }

    /// Every value of some kinds of primitive, captured by both frameworks and shared.
    captured_frameworks [6] ("alf"; "all") {
        let v: u16 = any();
        calls(&ValueBag::capture_sval2(&v), Kind::U64, v as u128);
        calls(&ValueBag::capture_serde1(&v), Kind::U64, v as u128);
        let v = Obj::any();
        calls(&ValueBag::capture_sval2(&v), Kind::U64, v.0 as u128);
        calls(&ValueBag::capture_serde1(&v), Kind::U64, v.0 as u128);
        calls(&ValueBag::capture_shared_sval2(v), Kind::U64, v.0 as u128);
        calls(&ValueBag::capture_shared_serde1(v), Kind::U64, v.0 as u128);
    }
}
