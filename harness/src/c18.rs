//! C18: a value that can't be buffered fails loudly.

use crate::nd::any;
use crate::obs::*;
use value_bag::{fill::Slot, Error, OwnedValueBag, ValueBag};

/// Formatted text marks that there's no value.
#[inline(always)]
fn marker<const N: usize>(s: &Sink<N>) {
    assert!(s.len >= 2, "a failed value formats as nothing");
    assert!(s.buf[0] == b'<' && s.buf[s.len - 1] == b'>', "a failed value isn't marked");
}

/// A bag is of a value that couldn't be buffered.
#[inline(always)]
fn loud(b: &ValueBag) {
    assert!(!b.is_empty(), "a failed value is empty");
    nothing(b);
    let mut log = Log::new();
    assert!(ok(b.visit(&mut log)).is_none(), "a failed value was visited");
    assert!(log.calls == 0, "a failed value was visited");
}

/// The same, of what's derived from it.
#[inline(always)]
fn derived(o: &OwnedValueBag) {
    let b = o.by_ref();
    assert!(!b.is_empty(), "a failed value is empty");
    assert!(b.to_u64().is_none() && b.to_borrowed_str().is_none(), "a failed value was converted");
    let mut log = Log::new();
    assert!(ok(b.visit(&mut log)).is_none(), "a failed value was visited");
}

/// What's buffered of a bag fails, and so does what's derived from it.
macro_rules! poisons {
    ($b:expr) => {{
        let owned: OwnedValueBag;
        let shared: OwnedValueBag;
        match &$b {
            b => {
                owned = b.to_owned();
                shared = b.to_shared();
            }
        }
        loud(&owned.by_ref());
        marker(&debugged::<40>(&owned, plain()));
        marker(&displayed::<40>(&owned.by_ref(), plain()));
        loud(&owned.by_ref().by_ref());
        derived(&shared);
        let clone = owned.clone();
        derived(&clone);
        let again = shared.by_ref().to_owned();
        derived(&again);
        let owned = owned.into_shared();
        derived(&owned);
        std::mem::forget((owned, shared, clone, again));
    }};
}

/// What's buffered of a bag fails to be output through a framework.
#[cfg(feature = "has-sval")]
macro_rules! doesnt_stream {
    ($b:expr) => {{
        let owned = $b.to_owned();
        let mut t = crate::trace::Trace::<4>::new();
        assert!(::sval::stream(&mut t, &owned.by_ref()).is_err() && t.calls == 0, "a failed value was streamed");
        let mut t = crate::trace::Trace::<4>::new();
        assert!(::sval::stream(&mut t, &owned).is_err() && t.calls == 0, "a failed value was streamed");
        std::mem::forget(owned);
    }};
}

#[cfg(feature = "has-serde")]
macro_rules! doesnt_serialize {
    ($b:expr) => {{
        use ::serde_core::Serialize;
        let owned = $b.to_owned();
        let mut t = crate::trace::Trace::<4>::new();
        assert!(owned.by_ref().serialize(crate::trace::Rec::new(&mut t)).is_err() && t.calls == 0, "a failed value was serialized");
        let mut t = crate::trace::Trace::<4>::new();
        assert!(owned.serialize(crate::trace::Rec::new(&mut t)).is_err() && t.calls == 0, "a failed value was serialized");
        std::mem::forget(owned);
    }};
}

harnesses! {
    /// A deferred value that isn't filled.
    fill [34] ("alo"; "own" "inl" "all") {
        poisons!(ValueBag::from_fill(&|_: Slot| Err(Error::msg("V"))));
    }

    /// A deferred value that fails after it's filled with anything.
    filled [34] ("alo"; "own" "inl" "all") {
        let v: u64 = any();
        poisons!(ValueBag::from_fill(&|s: Slot| s.fill_any(v).and_then(|_| Err(Error::msg("V")))));
    }

    /// A deferred object that fails after it's filled.
    filled_object [34] ("alo"; "own" "inl" "all") {
        let v = Obj::any();
        poisons!(ValueBag::from_fill(&|s: Slot| s.fill_display(v).and_then(|_| Err(Error::msg("V")))));
    }

    /// A deferred value that isn't filled, streamed.
    streamed [34] ("als"; "alf" "all") {
        doesnt_stream!(ValueBag::from_fill(&|_: Slot| Err(Error::msg("V"))));
        let v: u64 = any();
        doesnt_stream!(ValueBag::from_fill(&|s: Slot| s.fill_any(v).and_then(|_| Err(Error::msg("V")))));
    }

    /// A deferred value that isn't filled, serialized.
    serialized [34] ("ald"; "alf" "all") {
        doesnt_serialize!(ValueBag::from_fill(&|_: Slot| Err(Error::msg("V"))));
        let v: u64 = any();
        doesnt_serialize!(ValueBag::from_fill(&|s: Slot| s.fill_any(v).and_then(|_| Err(Error::msg("V")))));
    }
}
