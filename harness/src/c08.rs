//! C08: an owned or shared copy stands for the original.

use crate::nd::any;
use crate::obs::*;
use value_bag::{fill::Slot, OwnedValueBag, ValueBag};

#[inline(always)]
fn copy<const N: usize>(o: &OwnedValueBag, want: &View<N>) {
    same_copy(&view(&o.by_ref(), plain()), want);
}

/// The same, of what's derived from a copy.
#[inline(always)]
fn derived<const N: usize>(o: &OwnedValueBag, want: &View<N>) {
    let log = visited(&o.by_ref());
    assert!(class(log.kind) == class(want.log.kind), "a value was visited as another kind");
    assert!(log.bits == want.log.bits, "a value changed when it was visited");
    same_text(&displayed::<N>(o, plain()), &want.display);
}

/// A copy of an error. It's buffered as its messages, so debugging it shows something else.
#[cfg(feature = "has-std")]
#[inline(always)]
fn copied_error(o: &OwnedValueBag, want: &str) {
    let b = o.by_ref();
    assert!(class(visited(&b).kind) == Kind::Error, "a value was visited as another kind");
    displayed::<2>(&b, plain()).holds(want);
    displayed::<2>(o, plain()).holds(want);
    nothing(&b);
}

/// Copies of a bag say the same as it did.
///
/// The value is gone by the time they're asked.
macro_rules! stands {
    ($n:literal, { $($v:stmt;)* } $b:expr) => {
        stands!($n, { $($v;)* } $b, |shared, want| {
            // Of a copy of a copy.
            let again = shared.by_ref().to_owned();
            derived(&again, &want);
            std::mem::forget(again);
        })
    };
    ($n:literal, { $($v:stmt;)* } $b:expr, |$shared:ident, $want:ident| $again:block) => {{
        let $want: View<$n>;
        let owned: OwnedValueBag;
        let $shared: OwnedValueBag;
        {
            $($v)*
            match &$b {
                b => {
                    $want = view(b, plain());
                    owned = b.to_owned();
                    $shared = b.to_shared();
                }
            }
        }
        copy(&owned, &$want);
        copy(&$shared, &$want);
        let clone = owned.clone();
        derived(&clone, &$want);
        $again
        let owned = owned.into_shared();
        derived(&owned, &$want);
        let clone_shared = owned.clone();
        derived(&clone_shared, &$want);
        // Dropping them has the solver consider everything there is to drop. C20 does that.
        std::mem::forget(owned);
        std::mem::forget($shared);
        std::mem::forget(clone);
        std::mem::forget(clone_shared);
    }};
}

/// The same of what's buffered as formatted text, where copies of copies aren't considered.
macro_rules! stands_formatted {
    ({ $($v:stmt;)* } $b:expr) => {
        stands!(2, { $($v;)* } $b, |shared, want| {})
    };
}

/// Copies of a value serialize as it did.
#[cfg(feature = "has-serde")]
macro_rules! serializes {
    ({ $($v:stmt;)* } $b:expr) => {{
        let want: crate::trace::Trace<18>;
        let owned: OwnedValueBag;
        let shared: OwnedValueBag;
        {
            $($v)*
            match &$b {
                b => {
                    want = crate::trace::serialized(b, usize::MAX);
                    owned = b.to_owned();
                    shared = b.to_shared();
                }
            }
        }
        crate::trace::serialized::<18>(&owned.by_ref(), usize::MAX).alike(&want);
        crate::trace::serialized::<18>(&shared, usize::MAX).alike(&want);
        std::mem::forget(owned);
        std::mem::forget(shared);
    }};
}

/// Copies of a value stream as it did.
#[cfg(feature = "has-sval")]
macro_rules! streams {
    ({ $($v:stmt;)* } $b:expr) => {{
        let want: crate::trace::Trace<18>;
        let owned: OwnedValueBag;
        let shared: OwnedValueBag;
        {
            $($v)*
            match &$b {
                b => {
                    want = crate::trace::streamed(b, usize::MAX);
                    owned = b.to_owned();
                    shared = b.to_shared();
                }
            }
        }
        crate::trace::streamed::<18>(&owned.by_ref(), usize::MAX).alike(&want);
        crate::trace::streamed::<18>(&shared, usize::MAX).alike(&want);
        std::mem::forget(owned);
        std::mem::forget(shared);
    }};
}

harnesses! {
    /// Every integer.
    integers [34] ("alo"; "own" "inl" "big" "all") {
        stands!(32, { let v: u64 = any(); } ValueBag::from(v));
        stands!(32, { let v: i64 = any(); } ValueBag::from(v));
    }

    /// Every 128 bit integer.
    wide_integers [34] ("alo"; "own" "inl" "big" "all") {
        stands!(32, { let v: u128 = any(); } ValueBag::from(&v));
        stands!(32, { let v: i128 = any(); } ValueBag::from(&v));
    }

    /// Every float, boolean and character, and nothing.
    others [34] ("alo"; "own" "inl" "big" "all") {
        stands!(32, { let v: f64 = any(); } ValueBag::from(v));
        stands!(32, { let v: char = any(); } ValueBag::from(v));
        stands!(32, { let v = true; } ValueBag::from(v));
        stands!(32, { let v = false; } ValueBag::from(v));
        stands!(32, { let v = (); } ValueBag::from(v));
    }

    /// Every ASCII string of 2 bytes, borrowed, deferred and captured.
    text [5] ("own" "inl"; "alo" "big" "all") {
        stands!(4, { let v = Ascii::<2>::any(); } ValueBag::from(v.get()));
        stands!(4, { let v = Ascii::<2>::any(); let s = v.get_static(); } ValueBag::capture_display(&s));
        stands!(4, { let v = (); } ValueBag::from(""));
    }

    /// Any object captured for formatting.
    objects [5] ("own" "inl"; "alo" "big" "all") {
        stands_formatted!({ let v = Obj::any(); } ValueBag::capture_debug(&v));
        stands_formatted!({ let v = Obj::any(); } ValueBag::capture_display(&v));
        stands_formatted!({ let v = Obj::any(); } ValueBag::from_debug(&v));
        stands_formatted!({ let v = Obj::any(); } ValueBag::from_display(&v));
    }

    /// Deferred text and objects.
    fill [5] ("own"; "alo" "all") {
        stands!(4, { let v = Ascii::<2>::any(); let s = v.get_static(); } ValueBag::from_fill(&|slot: Slot| slot.fill_any(s)));
        stands_formatted!({ let v = Obj::any(); } ValueBag::from_fill(&|slot: Slot| slot.fill_display(v)));
    }

    /// Any object captured as shared for formatting.
    shared [5] ("alo"; "own" "inl" "all") {
        stands!(2, { let v = Obj::any(); } ValueBag::capture_shared_debug(v));
        stands!(2, { let v = Obj::any(); } ValueBag::capture_shared_display(v));
    }

    /// Any object captured as an error.
    errors [5] ("own"; "inl" "all") {
        let text: [u8; 2];
        let owned: OwnedValueBag;
        let shared: OwnedValueBag;
        {
            let v = Obj::any();
            let b = ValueBag::capture_error(&v);
            text = [b'!', v.0];
            owned = b.to_owned();
            shared = b.to_shared();
        }
        // SAFETY: it's ASCII.
        let text = unsafe { std::str::from_utf8_unchecked(&text) };
        copied_error(&owned, text);
        copied_error(&shared, text);
        let clone = owned.clone();
        copied_error(&clone, text);
        let owned = owned.into_shared();
        copied_error(&owned, text);
        std::mem::forget(owned);
        std::mem::forget(shared);
        std::mem::forget(clone);
    }

    /// Every value of each kind of primitive, serialized.
    serialized [20] ("ald"; "all") {
        serializes!({ let v: u64 = any(); } ValueBag::from(v));
        serializes!({ let v: i64 = any(); } ValueBag::from(v));
        serializes!({ let v: f64 = any(); } ValueBag::from(v));
        serializes!({ let v: char = any(); } ValueBag::from(v));
        serializes!({ let v: bool = any(); } ValueBag::from(v));
        serializes!({ let v = (); } ValueBag::from(v));
        serializes!({ let v = Ascii::<2>::any(); } ValueBag::from(v.get()));
        serializes!({ let v = Obj::any(); } ValueBag::from_display(&v));
    }

    /// Every value of each kind of primitive, streamed.
    streamed [20] ("als"; "all") {
        streams!({ let v: u64 = any(); } ValueBag::from(v));
        streams!({ let v: i64 = any(); } ValueBag::from(v));
        streams!({ let v: f64 = any(); } ValueBag::from(v));
        streams!({ let v: char = any(); } ValueBag::from(v));
        streams!({ let v: bool = any(); } ValueBag::from(v));
        streams!({ let v = (); } ValueBag::from(v));
        streams!({ let v = Ascii::<2>::any(); } ValueBag::from(v.get()));
        streams!({ let v = Obj::any(); } ValueBag::from_display(&v));
    }
}
