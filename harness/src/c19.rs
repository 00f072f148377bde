//! C19: emptiness is only ever what was put in.

use crate::nd::any;
use crate::obs::*;
use value_bag::{fill::Slot, ValueBag};

/// A bag is empty.
#[inline(always)]
fn empty(b: &ValueBag) {
    assert!(b.is_empty(), "nothing isn't empty");
    assert!(b.by_ref().is_empty() && b.clone().is_empty(), "nothing isn't empty when it's borrowed");
    nothing(b);
    let log = visited(b);
    assert!(log.calls == 1 && log.kind == Kind::Empty, "nothing was visited as something");
}

/// A bag isn't.
#[inline(always)]
fn present(b: &ValueBag, kind: Kind, bits: u128) {
    assert!(!b.is_empty(), "something is empty");
    assert!(!b.by_ref().is_empty() && !b.clone().is_empty(), "something is empty when it's borrowed");
    let log = visited(b);
    assert!(log.calls == 1 && log.kind == kind, "something was visited as another kind");
    assert!(log.bits == bits, "something changed when it was visited");
}

/// An optional primitive, there or not, by each way in.
macro_rules! optional {
    ($($t:ident $kind:ident $bits:expr;)*) => {
        $(
            let v: $t = any();
            let bits = ($bits)(v);
            let missing: Option<$t> = None;
            empty(&ValueBag::from(missing));
            empty(&ValueBag::from_option(missing));
            match &ValueBag::capture_debug(&missing) { b => empty(b) }
            match &ValueBag::try_capture(&missing).expect("an option wasn't captured") { b => empty(b) }
            let some = Some(v);
            present(&ValueBag::from(some), Kind::$kind, bits);
            present(&ValueBag::from_option(some), Kind::$kind, bits);
            match &ValueBag::capture_debug(&some) { b => present(b, Kind::$kind, bits) }
            match &ValueBag::try_capture(&some).expect("an option wasn't captured") { b => present(b, Kind::$kind, bits) }
        )*
    };
}

/// Copies of nothing are nothing, and those of something aren't.
#[cfg(feature = "has-owned")]
#[inline(always)]
fn copies_empty(b: &ValueBag) {
    let o = b.to_owned();
    empty(&o.by_ref());
    let c = o.clone();
    empty(&c.by_ref());
    let s = o.into_shared();
    empty(&s.by_ref());
    let s = s.by_ref().to_shared();
    empty(&s.by_ref());
}

#[cfg(feature = "has-owned")]
#[inline(always)]
fn copies_present(b: &ValueBag) {
    let o = b.to_owned();
    assert!(!o.by_ref().is_empty(), "something is empty when it's copied");
    let c = o.clone();
    assert!(!c.by_ref().is_empty(), "something is empty when it's copied");
    let s = o.into_shared();
    assert!(!s.by_ref().is_empty(), "something is empty when it's copied");
    std::mem::forget((c, s));
}

harnesses! {
    /// Every way to put nothing in.
    missing [5] ("min"; "own" "big" "all") {
        empty(&ValueBag::empty());
        empty(&ValueBag::from(()));
        match &() { v => empty(&ValueBag::from(v)) }
        empty(&ValueBag::from_option(None::<u64>));
        empty(&ValueBag::from(None::<&str>));
        empty(&ValueBag::from_option(None::<&str>));
        let b = ValueBag::from_fill(&|s: Slot| s.fill_any(()));
        nothing(&b);
        let log = visited(&b);
        assert!(log.calls == 1 && log.kind == Kind::Empty, "nothing was visited as something");
    }

    /// Every optional unsigned integer.
    unsigned [5] ("min"; "own" "big" "all") {
        optional! {
            u8 U64 |v| v as u128;
            u16 U64 |v| v as u128;
            u32 U64 |v| v as u128;
            u64 U64 |v| v as u128;
            usize U64 |v| v as u128;
        }
    }

    /// Every optional signed integer.
    signed [5] ("min"; "own" "big" "all") {
        optional! {
            i8 I64 |v| v as i128 as u128;
            i16 I64 |v| v as i128 as u128;
            i32 I64 |v| v as i128 as u128;
            i64 I64 |v| v as i128 as u128;
            isize I64 |v| v as i128 as u128;
        }
    }

    /// Every optional float, boolean and character.
    others [5] ("min"; "own" "big" "all") {
        optional! {
            f64 F64 |v: f64| v.to_bits() as u128;
            bool Bool |v| v as u128;
            char Char |v| v as u128;
        }
    }

    /// Every optional 128 bit integer, by reference.
    wide_ref [5] ("min"; "own" "big" "all") {
        let v: u128 = any();
        empty(&ValueBag::from_option(None::<&u128>));
        present(&ValueBag::from_option(Some(&v)), Kind::U128, v);
        let v: i128 = any();
        empty(&ValueBag::from_option(None::<&i128>));
        present(&ValueBag::from_option(Some(&v)), Kind::I128, v as u128);
    }

    /// Every optional ASCII string of 2 bytes, and no characters.
    text [5] ("min"; "own" "big" "all") {
        let v = Ascii::<2>::any();
        let s = v.get_static();
        present(&ValueBag::from(Some(s)), Kind::BorrowedStr, str_bits(s));
        present(&ValueBag::from_option(Some(s)), Kind::BorrowedStr, str_bits(s));
        let o = Some(s);
        present(&ValueBag::try_capture(&o).expect("an option wasn't captured"), Kind::BorrowedStr, str_bits(s));
        let o: Option<&'static str> = None;
        empty(&ValueBag::try_capture(&o).expect("an option wasn't captured"));
        present(&ValueBag::from(""), Kind::BorrowedStr, str_bits(""));
        present(&ValueBag::from(Some("")), Kind::BorrowedStr, str_bits(""));
    }

    /// Objects aren't empty, whatever is in them.
    objects [5] ("min"; "own" "big" "all") {
        let v = Obj::any();
        assert!(!ValueBag::capture_debug(&v).is_empty(), "something is empty");
        assert!(!ValueBag::capture_display(&v).is_empty(), "something is empty");
        assert!(!ValueBag::from_debug(&v).is_empty(), "something is empty");
        assert!(!ValueBag::from_display(&v).is_empty(), "something is empty");
        match &ValueBag::from_fill(&|s: Slot| s.fill_display(v)) { b => assert!(!b.is_empty(), "something is empty") }
    }

    /// Copies of nothing.
    copies_missing [5] ("alo"; "own" "inl" "big" "all") {
        copies_empty(&ValueBag::empty());
        copies_empty(&ValueBag::from_option(None::<u64>));
        copies_empty(&ValueBag::from_fill(&|s: Slot| s.fill_any(())));
    }

    /// Copies of something.
    copies [5] ("alo"; "own" "inl" "big" "all") {
        copies_present(&ValueBag::from(any::<u64>()));
        copies_present(&ValueBag::from(any::<i64>()));
        copies_present(&ValueBag::from(any::<f64>()));
        copies_present(&ValueBag::from(any::<bool>()));
        copies_present(&ValueBag::from(any::<char>()));
        copies_present(&ValueBag::from(""));
        let v = Ascii::<2>::any();
        copies_present(&ValueBag::from(v.get()));
        let v = Obj::any();
        copies_present(&ValueBag::from_debug(&v));
        copies_present(&ValueBag::capture_shared_display(v));
    }

    /// Sequences aren't empty, whether or not anything is in them.
    sequences [5] ("alo"; "own" "all") {
        let v = [any::<u8>()];
        assert!(!ValueBag::from_seq_slice(&v).is_empty(), "something is empty");
        let v: [u8; 0] = [];
        assert!(!ValueBag::from_seq_slice(&v).is_empty(), "something is empty");
    }

    /// Nothing, streamed.
    streamed [8] ("als"; "alf" "all") {
        use crate::trace::*;
        streamed::<4>(&ValueBag::empty(), usize::MAX).is(&[(Ev::Null, 0)]);
        streamed::<4>(&ValueBag::from(None::<u64>), usize::MAX).is(&[(Ev::Null, 0)]);
        let o = ValueBag::empty().to_owned();
        streamed::<4>(&o, usize::MAX).is(&[(Ev::Null, 0)]);
        let v: u64 = any();
        streamed::<4>(&ValueBag::from(Some(v)), usize::MAX).is(&[(Ev::U64, v as u128)]);
        let missing: Option<u64> = None;
        streamed::<4>(&ValueBag::capture_sval2(&missing), usize::MAX).is(&[(Ev::Null, 0)]);
    }

    /// Nothing, serialized.
    serialized [8] ("ald"; "alf" "all") {
        use crate::trace::*;
        serialized::<4>(&ValueBag::empty(), usize::MAX).is(&[(Ev::Null, 0)]);
        serialized::<4>(&ValueBag::from(None::<u64>), usize::MAX).is(&[(Ev::Null, 0)]);
        let o = ValueBag::empty().to_owned();
        serialized::<4>(&o, usize::MAX).is(&[(Ev::Null, 0)]);
        let v: u64 = any();
        serialized::<4>(&ValueBag::from(Some(v)), usize::MAX).is(&[(Ev::U64, v as u128)]);
        let missing: Option<u64> = None;
        serialized::<4>(&ValueBag::capture_serde1(&missing), usize::MAX).is(&[(Ev::Null, 0)]);
    }
}
