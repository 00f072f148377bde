//! C05: downcasting yields the captured value and only at its own type.

use crate::nd::any;
use crate::obs::*;
use value_bag::ValueBag;

/// The bag has the very object `v`, and nothing of another type.
#[inline(always)]
fn has(b: &ValueBag, v: &Obj) {
    match b.downcast_ref::<Obj>() {
        Some(o) => assert!(std::ptr::eq(o, v), "a downcast yielded another object"),
        None => panic!("a captured value wasn't downcast"),
    }
    assert!(b.is::<Obj>(), "a captured value isn't of its type");
    only(b);
}

/// The bag has an object like `v`, and nothing of another type.
#[inline(always)]
fn has_like(b: &ValueBag, v: Obj) {
    match b.downcast_ref::<Obj>() {
        Some(o) => assert!(*o == v, "a downcast yielded another object"),
        None => panic!("a captured value wasn't downcast"),
    }
    assert!(b.is::<Obj>(), "a captured value isn't of its type");
    only(b);
}

#[inline(always)]
fn only(b: &ValueBag) {
    assert!(b.downcast_ref::<Twin>().is_none(), "a value was downcast to another type");
    assert!(b.downcast_ref::<u8>().is_none(), "a value was downcast to another type");
    assert!(!b.is::<&'static Obj>(), "a value was downcast to another type");
    assert!(!b.is::<u64>(), "a value was downcast to another type");
}

#[inline(always)]
fn has_none(b: &ValueBag) {
    assert!(!b.is::<Obj>(), "a value that wasn't captured was downcast");
    only(b);
}

/// `f` of the bag, borrowed, cloned, and both.
#[inline(always)]
fn copies<'a>(b: &ValueBag<'a>, f: impl Fn(&ValueBag)) {
    f(b);
    f(&b.by_ref());
    let c = b.clone();
    f(&c);
    f(&c.by_ref());
    f(&b.by_ref().clone());
}

harnesses! {
    /// An object with any contents, captured by each trait.
    borrowed [4] ("min" "own" "alf"; "all") {
        let v = Obj::any();
        copies(&ValueBag::capture_debug(&v), |b| has(b, &v));
        copies(&ValueBag::capture_display(&v), |b| has(b, &v));
        #[cfg(feature = "has-std")]
        copies(&ValueBag::capture_error(&v), |b| has(b, &v));
        #[cfg(feature = "has-sval")]
        copies(&ValueBag::capture_sval2(&v), |b| has(b, &v));
        #[cfg(feature = "has-serde")]
        copies(&ValueBag::capture_serde1(&v), |b| has(b, &v));
    }

    /// Objects without capturing support, and primitives.
    anonymous [4] ("min" "own" "alf"; "all") {
        let v = Obj::any();
        has_none(&ValueBag::from_debug(&v));
        has_none(&ValueBag::from_display(&v));
        has_none(&ValueBag::from_dyn_debug(&v));
        has_none(&ValueBag::from_dyn_display(&v));
        has_none(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_debug(v)));
        has_none(&ValueBag::empty());
        #[cfg(feature = "has-std")]
        has_none(&ValueBag::from_dyn_error(&v));
        #[cfg(feature = "has-sval")]
        {
            has_none(&ValueBag::from_sval2(&v));
            has_none(&ValueBag::from_dyn_sval2(&v));
        }
        #[cfg(feature = "has-serde")]
        {
            has_none(&ValueBag::from_serde1(&v));
        }
        #[cfg(feature = "has-seq")]
        has_none(&ValueBag::from_seq_slice(&[1u8]));
        let v: u64 = any();
        has_none(&ValueBag::from(v));
        has_none(&ValueBag::capture_debug(&v));
        has_none(&ValueBag::capture_display(&v));
        let v: u8 = any();
        has_none(&ValueBag::capture_debug(&v));
    }

    /// An object with any contents, captured as shared by each trait.
    shared [4] ("own" "alf"; "all") {
        let v = Obj::any();
        copies(&ValueBag::capture_shared_debug(v), |b| has_like(b, v));
        copies(&ValueBag::capture_shared_display(v), |b| has_like(b, v));
        #[cfg(feature = "has-std")]
        copies(&ValueBag::capture_shared_error(v), |b| has_like(b, v));
        #[cfg(feature = "has-sval")]
        copies(&ValueBag::capture_shared_sval2(v), |b| has_like(b, v));
        #[cfg(feature = "has-serde")]
        copies(&ValueBag::capture_shared_serde1(v), |b| has_like(b, v));
    }

    /// A shared object keeps its type when it's owned.
    shared_owned [4] ("own"; "all") {
        let v = Obj::any();
        macro_rules! one { ($b:expr) => {{
            let b = $b;
            has_like(&b.to_owned().by_ref(), v);
            has_like(&b.to_shared().clone().by_ref(), v);
        }} }
        one!(ValueBag::capture_shared_debug(v));
        one!(ValueBag::capture_shared_display(v));
        #[cfg(feature = "has-std")]
        one!(ValueBag::capture_shared_error(v));
        #[cfg(feature = "has-sval")]
        one!(ValueBag::capture_shared_sval2(v));
        #[cfg(feature = "has-serde")]
        one!(ValueBag::capture_shared_serde1(v));
    }
}
