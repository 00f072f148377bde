//! C20: a shared value is dropped exactly once, and not before its last bag.

use crate::nd::any;
use crate::obs::*;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering};
use value_bag::{OwnedValueBag, ValueBag};

/// The number of values there are, and of those that were dropped.
static DROPS: AtomicUsize = AtomicUsize::new(0);
static CLONES: AtomicUsize = AtomicUsize::new(0);

#[inline(always)]
fn drops() -> usize {
    DROPS.load(Ordering::Relaxed)
}

/// A value that counts its drops.
struct Tracked(u8);

impl Tracked {
    /// The only one.
    #[inline(always)]
    fn any() -> Self {
        DROPS.store(0, Ordering::Relaxed);
        CLONES.store(0, Ordering::Relaxed);
        Tracked(Obj::any().0)
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        CLONES.store(CLONES.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
        Tracked(self.0)
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        self.0 = b'#';
        DROPS.store(drops() + 1, Ordering::Relaxed);
    }
}

impl fmt::Debug for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&Obj(self.0), f)
    }
}

impl fmt::Display for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&Obj(self.0), f)
    }
}

#[cfg(feature = "has-std")]
impl std::error::Error for Tracked {}

#[cfg(feature = "has-sval")]
impl ::sval::Value for Tracked {
    fn stream<'sval, S: ::sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> ::sval::Result {
        s.u8(self.0)
    }
}

#[cfg(feature = "has-serde")]
impl ::serde_core::Serialize for Tracked {
    fn serialize<S: ::serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u8(self.0)
    }
}

impl<'v> From<&'v Tracked> for ValueBag<'v> {
    fn from(v: &'v Tracked) -> Self {
        ValueBag::from_debug(v)
    }
}

/// What keeps the value alive.
trait Handle: Sized {
    fn again(&self) -> Self;
    fn own(&self) -> OwnedValueBag;
    fn share(&self) -> OwnedValueBag;
    fn value(&self) -> Option<u8>;

    /// It's the value.
    #[inline(always)]
    fn holds(&self, want: u8) {
        kept();
        assert!(self.value() == Some(want), "a shared value is gone");
    }
}

impl Handle for ValueBag<'static> {
    #[inline(always)]
    fn again(&self) -> Self {
        self.clone()
    }

    #[inline(always)]
    fn own(&self) -> OwnedValueBag {
        self.to_owned()
    }

    #[inline(always)]
    fn share(&self) -> OwnedValueBag {
        self.by_ref().to_shared()
    }

    #[inline(always)]
    fn value(&self) -> Option<u8> {
        self.downcast_ref::<Tracked>().map(|v| v.0)
    }
}

impl Handle for OwnedValueBag {
    #[inline(always)]
    fn again(&self) -> Self {
        self.clone()
    }

    #[inline(always)]
    fn own(&self) -> OwnedValueBag {
        self.by_ref().to_owned()
    }

    #[inline(always)]
    fn share(&self) -> OwnedValueBag {
        self.clone().into_shared()
    }

    #[inline(always)]
    fn value(&self) -> Option<u8> {
        self.by_ref().downcast_ref::<Tracked>().map(|v| v.0)
    }
}

#[inline(always)]
fn kept() {
    assert!(drops() == 0, "a shared value was dropped while it's in use");
}

fn debug(v: Tracked) -> ValueBag<'static> {
    ValueBag::capture_shared_debug(v)
}

fn display(v: Tracked) -> ValueBag<'static> {
    ValueBag::capture_shared_display(v)
}

#[cfg(feature = "has-std")]
fn error(v: Tracked) -> ValueBag<'static> {
    ValueBag::capture_shared_error(v)
}

#[cfg(feature = "has-sval")]
fn sval(v: Tracked) -> ValueBag<'static> {
    ValueBag::capture_shared_sval2(v)
}

#[cfg(feature = "has-serde")]
fn serde(v: Tracked) -> ValueBag<'static> {
    ValueBag::capture_shared_serde1(v)
}

/// They go in some order, one after the other.
#[inline(always)]
fn gone(first: impl Handle, second: impl Handle, last: impl Handle, want: u8) {
    drop(first);
    kept();
    drop(second);
    last.holds(want);
    drop(last);
    assert!(drops() == 1, "a shared value wasn't dropped once");
    assert!(CLONES.load(Ordering::Relaxed) == 0, "a shared value was copied");
}

/// Any history of three handles: the second comes from the first by the given way, the third from the first or the second by
/// any way, and all of them go in any order.
///
/// The choice is made once, at the beginning, so that the solver doesn't have to consider what a handle might be in
/// other histories.
macro_rules! histories {
    ($capture:ident $second:ident) => {
        let v = Tracked::any();
        let want = v.0;
        let which: u8 = any();
        history!($capture v want which 0 $second again a (a b));
        history!($capture v want which 3 $second own a (a b));
        history!($capture v want which 6 $second share a (a b));
        history!($capture v want which 9 $second again b (a b));
        history!($capture v want which 12 $second own b (a b));
        history!($capture v want which 15 $second share b (a b));
    };
}

macro_rules! history {
    ($capture:ident $v:ident $want:ident $which:ident $n:literal $second:ident $third:ident $from:ident ($a:ident $b:ident)) => {
        if $which == $n {
            let $a = $capture($v);
            let $b = $a.$second();
            let c = $from.$third();
            return gone($a, $b, c, $want);
        }
        if $which == $n + 1 {
            let $a = $capture($v);
            let $b = $a.$second();
            let c = $from.$third();
            return gone($b, c, $a, $want);
        }
        if $which == $n + 2 {
            let $a = $capture($v);
            let $b = $a.$second();
            let c = $from.$third();
            return gone(c, $a, $b, $want);
        }
    };
}

harnesses! {
    /// A value captured for debugging, first cloned.
    debug_again [4] ("alo"; "own" "inl" "all") {
        histories!(debug again);
    }

    /// A value captured for debugging, first owned.
    debug_own [4] ("alo"; "own" "inl" "all") {
        histories!(debug own);
    }

    /// A value captured for debugging, first shared.
    debug_share [4] ("alo"; "own" "inl" "all") {
        histories!(debug share);
    }

    /// A value captured for display, first cloned.
    display_again [4] ("alo"; "own" "inl" "all") {
        histories!(display again);
    }

    /// A value captured for display, first owned.
    display_own [4] ("alo"; "own" "inl" "all") {
        histories!(display own);
    }

    /// A value captured for display, first shared.
    display_share [4] ("alo"; "own" "inl" "all") {
        histories!(display share);
    }

    /// An error, first cloned.
    error_again [4] ("own"; "inl" "all") {
        histories!(error again);
    }

    /// An error, first owned.
    error_own [4] ("own"; "inl" "all") {
        histories!(error own);
    }

    /// An error, first shared.
    error_share [4] ("own"; "inl" "all") {
        histories!(error share);
    }

    /// A value captured through `sval`, first cloned.
    sval_again [4] ("als"; "alf" "all") {
        histories!(sval again);
    }

    /// A value captured through `sval`, first owned.
    sval_own [4] ("als"; "alf" "all") {
        histories!(sval own);
    }

    /// A value captured through `sval`, first shared.
    sval_share [4] ("als"; "alf" "all") {
        histories!(sval share);
    }

    /// A value captured through `serde`, first cloned.
    serde_again [4] ("ald"; "alf" "all") {
        histories!(serde again);
    }

    /// A value captured through `serde`, first owned.
    serde_own [4] ("ald"; "alf" "all") {
        histories!(serde own);
    }

    /// A value captured through `serde`, first shared.
    serde_share [4] ("ald"; "alf" "all") {
        histories!(serde share);
    }

    /// A sequence, dropped with its last handle.
    sequence [4] ("alo"; "own" "all") {
        let v = Tracked::any();
        let a = ValueBag::capture_shared_seq_slice([v]);
        let b = a.clone();
        let c = a.to_owned();
        let d = b.to_shared();
        drop(a);
        kept();
        drop(c);
        kept();
        drop(b);
        kept();
        let e = d.clone();
        drop(d);
        kept();
        drop(e);
        assert!(drops() == 1, "a shared value wasn't dropped once");
    }
}
