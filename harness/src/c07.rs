//! C07: borrowing or cloning a bag changes nothing that can be observed.

use crate::nd::any;
use crate::obs::*;
use std::fmt::FormattingOptions;
use value_bag::{fill::Slot, Error, ValueBag};

/// What is made of a bag by borrowing and cloning says the same.
#[inline(always)]
fn transparent(b: ValueBag, o: FormattingOptions) {
    let want = view::<32>(&b, o);
    same_view(&view(&b.by_ref(), o), &want);
    let c = b.clone();
    // Of a clone, after the original is gone.
    drop(b);
    same_view(&view(&c, o), &want);
    same_view(&view(&c.by_ref().clone(), o), &want);
}

/// The same, with all combinations of the two.
#[inline(always)]
fn transparent_twice(b: ValueBag, o: FormattingOptions) {
    let want = view::<32>(&b, o);
    let r = b.by_ref();
    same_view(&view(&r, o), &want);
    same_view(&view(&r.by_ref(), o), &want);
    same_view(&view(&r.clone(), o), &want);
    let c = b.clone();
    same_view(&view(&c.by_ref(), o), &want);
    drop(b);
    same_view(&view(&c, o), &want);
    same_view(&view(&c.clone(), o), &want);
}

/// The same, through `sval`.
#[cfg(feature = "has-sval")]
macro_rules! streams_alike {
    ($b:expr) => {
        match $b {
            b => {
                use crate::trace::streamed;
                let want = streamed::<12>(&b, usize::MAX);
                streamed::<12>(&b.by_ref(), usize::MAX).same(&want);
                streamed::<12>(&b.by_ref().clone(), usize::MAX).same(&want);
                let c = b.clone();
                drop(b);
                streamed::<12>(&c, usize::MAX).same(&want);
                streamed::<12>(&c.by_ref(), usize::MAX).same(&want);
            }
        }
    };
}

/// The same, through `serde`.
#[cfg(feature = "has-serde")]
macro_rules! serializes_alike {
    ($b:expr) => {
        match $b {
            b => {
                use crate::trace::serialized;
                let want = serialized::<12>(&b, usize::MAX);
                serialized::<12>(&b.by_ref(), usize::MAX).same(&want);
                serialized::<12>(&b.by_ref().clone(), usize::MAX).same(&want);
                let c = b.clone();
                drop(b);
                serialized::<12>(&c, usize::MAX).same(&want);
                serialized::<12>(&c.by_ref(), usize::MAX).same(&want);
            }
        }
    };
}

#[cfg(feature = "has-seq")]
fn items(b: &ValueBag) -> Items<u64, 2> {
    b.to_u64_seq().expect("a sequence wasn't extracted")
}

#[cfg(feature = "has-seq")]
fn same_items(got: &ValueBag, want: &Items<u64, 2>) {
    let got = items(got);
    assert!(got.len == 2 && want.len == 2, "a sequence changed its length");
    assert!(got.at[0] == want.at[0] && got.at[1] == want.at[1], "a sequence changed its content");
}

/// The same, of sequences.
#[cfg(feature = "has-seq")]
#[inline(always)]
fn extracts_alike(b: ValueBag) {
    let want = items(&b);
    same_items(&b.by_ref(), &want);
    same_items(&b.by_ref().clone(), &want);
    let c = b.clone();
    drop(b);
    same_items(&c, &want);
    same_items(&c.by_ref(), &want);
}

harnesses! {
    /// Every integer, under any flags.
    integers [34] ("min"; "own" "big" "all") {
        let o = flags();
        let v: u64 = any();
        transparent(ValueBag::from(v), o);
        let v: i64 = any();
        transparent(ValueBag::from(v), o);
        let v: u128 = any();
        transparent(ValueBag::from(&v), o);
        let v: i128 = any();
        transparent(ValueBag::from(&v), o);
    }

    /// 128 bit integers that are held inline.
    inline [34] ("big"; "all") {
        let o = flags();
        let v: u128 = any();
        transparent(ValueBag::from(v), o);
        let v: i128 = any();
        transparent(ValueBag::from(v), o);
    }

    /// Every float, boolean and character, and nothing, under any flags.
    others [34] ("min"; "own" "big" "all") {
        let o = flags();
        let v: f64 = any();
        transparent(ValueBag::from(v), o);
        let v: char = any();
        transparent(ValueBag::from(v), o);
        transparent(ValueBag::from(true), o);
        transparent(ValueBag::from(false), o);
        transparent(ValueBag::empty(), o);
    }

    /// Every ASCII string of 2 bytes, under any flags, borrowed and deferred.
    text [34] ("min"; "own" "big" "all") {
        #[cfg(kani)]
        unsafe { crate::stubs::format::FLAGS = true };
        let o = flags();
        let v = Ascii::<2>::any();
        transparent(ValueBag::from(v.get()), o);
        let s = v.get_static();
        transparent(ValueBag::from_fill(&|slot: Slot| slot.fill_any(s)), o);
    }

    /// Any object, under any flags, captured for formatting.
    objects [34] ("min"; "own" "all") {
        let o = flags();
        let v = Obj::any();
        transparent(ValueBag::capture_debug(&v), o);
        transparent(ValueBag::capture_display(&v), o);
        let v = Probe(any());
        transparent(ValueBag::from_debug(&v), o);
        transparent(ValueBag::from_display(&v), o);
        transparent(ValueBag::from_fill(&|slot: Slot| slot.fill_debug(v)), o);
    }

    /// Any object, captured as an error.
    errors [34] ("own"; "all") {
        let o = flags();
        let v = Obj::any();
        transparent(ValueBag::capture_error(&v), o);
        transparent(ValueBag::from_dyn_error(&v), o);
        transparent_twice(ValueBag::capture_shared_error(v), o);
    }

    /// Any object, under any flags, captured as shared for formatting.
    shared [34] ("alo"; "own" "all") {
        let o = flags();
        let v = Obj::any();
        transparent_twice(ValueBag::capture_shared_debug(v), o);
        transparent_twice(ValueBag::capture_shared_display(v), o);
        let v = Probe(any());
        transparent_twice(ValueBag::capture_shared_debug(v), o);
        transparent_twice(ValueBag::capture_shared_display(v), o);
    }

    /// A sequence of any two integers, borrowed and shared.
    sequences [34] ("alo"; "own" "all") {
        let v: [u64; 2] = [any(), any()];
        extracts_alike(ValueBag::from_seq_slice(&v));
        extracts_alike(ValueBag::from(&v));
        extracts_alike(ValueBag::capture_shared_seq_slice(v));
    }

    /// A sequence of any object, formatted.
    formatted_sequences [34] ("alo"; "own" "all") {
        let v = [Obj::any()];
        let o = plain();
        let b = ValueBag::from_seq_slice(&v);
        same_text(&debugged::<8>(&b.by_ref(), o), &debugged::<8>(&b, o));
        let b = ValueBag::capture_shared_seq_slice(v);
        let want = debugged::<8>(&b, o);
        same_text(&debugged::<8>(&b.by_ref(), o), &want);
        let c = b.clone();
        drop(b);
        same_text(&displayed::<8>(&c, o), &want);
    }

    /// A value that failed to be buffered.
    poisoned [34] ("alo"; "own" "all") {
        let b = ValueBag::from_fill(&|_: Slot| Err(Error::msg("V"))).to_owned();
        let o = plain();
        transparent_twice(b.by_ref(), o);
        let c = b.clone();
        same_view::<32>(&view(&c.by_ref(), o), &view(&b.by_ref(), o));
    }

    /// Any object captured through `sval`.
    sval [34] ("als"; "alf" "all") {
        let v = Obj::any();
        let o = plain();
        let b = ValueBag::capture_sval2(&v);
        assert!(b.by_ref().downcast_ref::<Obj>().map(|v| v as *const Obj) == Some(&v as *const Obj), "a downcast yields another object");
        assert!(b.clone().downcast_ref::<Obj>().map(|v| v as *const Obj) == Some(&v as *const Obj), "a downcast yields another object");
        streams_alike!(b);
        streams_alike!(ValueBag::from_sval2(&v));
        streams_alike!(ValueBag::from_dyn_sval2(&v));
        let v = crate::trace::Rich::<{ crate::trace::Form::Text }>::any();
        streams_alike!(ValueBag::capture_shared_sval2(v.clone()));
        streams_alike!(ValueBag::from_sval2(&v));
    }

    /// Any object captured through `serde`.
    serde [34] ("ald"; "alf" "all") {
        let v = Obj::any();
        let b = ValueBag::capture_serde1(&v);
        assert!(b.by_ref().downcast_ref::<Obj>().map(|v| v as *const Obj) == Some(&v as *const Obj), "a downcast yields another object");
        assert!(b.clone().downcast_ref::<Obj>().map(|v| v as *const Obj) == Some(&v as *const Obj), "a downcast yields another object");
        serializes_alike!(b);
        serializes_alike!(ValueBag::from_serde1(&v));
        let v = crate::trace::Rich::<{ crate::trace::Form::Text }>::any();
        serializes_alike!(ValueBag::capture_shared_serde1(v.clone()));
        serializes_alike!(ValueBag::from_serde1(&v));
    }
}
