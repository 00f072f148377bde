//! C10: formatting a bag formats what it holds.

use crate::nd::{any, below};
use crate::obs::*;
use std::fmt;
use value_bag::{fill::Slot, ValueBag};

/// Format into a sink that accepts so many writes, and say whether it did.
#[inline(always)]
fn debug(v: &dyn fmt::Debug, o: fmt::FormattingOptions, accept: usize) -> (bool, Sink<40>) {
    let mut sink = Sink::new();
    sink.accept = accept;
    let r = v.fmt(&mut fmt::Formatter::new(&mut sink, o));
    (r.is_ok(), sink)
}

#[inline(always)]
fn display(v: &dyn fmt::Display, o: fmt::FormattingOptions, accept: usize) -> (bool, Sink<40>) {
    let mut sink = Sink::new();
    sink.accept = accept;
    let r = v.fmt(&mut fmt::Formatter::new(&mut sink, o));
    (r.is_ok(), sink)
}

#[inline(always)]
fn same((got_ok, got): (bool, Sink<40>), (want_ok, want): (bool, Sink<40>)) {
    assert!(!got_ok || want_ok, "a failure to format was lost");
    assert!(got_ok || !want_ok, "formatting failed");
    same_text(&got, &want);
}

/// Formatting `b` is formatting `d` when debugging and `s` when displaying, for an output that may fail.
macro_rules! formats {
    ($b:expr, $d:expr, $s:expr, $o:expr, $writes:literal) => {
        match &$b {
            b => {
                let o = $o;
                same(debug(b, o, usize::MAX), $d(o, usize::MAX));
                same(display(b, o, usize::MAX), $s(o, usize::MAX));
                let mut i = 0;
                while i < $writes {
                    same(debug(b, plain(), i), $d(plain(), i));
                    same(display(b, plain(), i), $s(plain(), i));
                    i += 1;
                }
            }
        }
    };
}

/// Formatting `b` is formatting `v`.
macro_rules! forwards {
    ($b:expr, $v:expr, $o:expr, $writes:literal) => {
        match &$v {
            v => formats!($b, |o, n| debug(v, o, n), |o, n| display(v, o, n), $o, $writes),
        }
    };
}

/// Formatting `b` is debugging `v`.
macro_rules! debugs {
    ($b:expr, $v:expr, $o:expr, $writes:literal) => {
        match &$v {
            v => formats!($b, |o, n| debug(v, o, n), |o, n| debug(v, o, n), $o, $writes),
        }
    };
}

/// Formatting `b` is displaying `v`.
macro_rules! displays {
    ($b:expr, $v:expr, $o:expr, $writes:literal) => {
        match &$v {
            v => formats!($b, |o, n| display(v, o, n), |o, n| display(v, o, n), $o, $writes),
        }
    };
}

harnesses! {
    /// Every integer, under any flags, with an output that may fail.
    integers [40] ("min" "own"; "big" "all") {
        let o = flags();
        let v: u64 = any();
        forwards!(ValueBag::from(v), v, o, 1);
        let v: i64 = any();
        forwards!(ValueBag::from(v), v, o, 1);
        let v: u128 = any();
        forwards!(ValueBag::from(&v), v, o, 1);
        let v: i128 = any();
        forwards!(ValueBag::from(&v), v, o, 1);
    }

    /// Every float, boolean and character, under any flags, with an output that may fail.
    others [40] ("min" "own"; "big" "all") {
        let o = flags();
        let v: f64 = any();
        forwards!(ValueBag::from(v), v, o, 1);
        let v: char = any();
        forwards!(ValueBag::from(v), v, o, 1);
        forwards!(ValueBag::from(true), true, o, 1);
        forwards!(ValueBag::from(false), false, o, 1);
    }

    /// Every ASCII string of 2 bytes, under any flags, with an output that may fail.
    text [40] ("min" "own"; "big" "all") {
        let o = flags();
        #[cfg(kani)]
        unsafe { crate::stubs::format::FLAGS = true };
        let v = Ascii::<2>::any();
        forwards!(ValueBag::from(v.get()), v.get(), o, 1);
        let s = v.get_static();
        forwards!(ValueBag::capture_debug(&s), v.get(), o, 0);
        forwards!(ValueBag::from(""), "", o, 0);
    }

    /// The same by a deferred fill.
    fill [40] ("min"; "big" "all") {
        let o = flags();
        #[cfg(kani)]
        unsafe { crate::stubs::format::FLAGS = true };
        let v: u64 = any();
        forwards!(ValueBag::from_fill(&|s: Slot| s.fill_any(v)), v, o, 1);
        let v: i128 = any();
        forwards!(ValueBag::from_fill(&|s: Slot| s.fill_any(v as i64)), v as i64, o, 0);
        let v = Ascii::<2>::any();
        let v = v.get_static();
        forwards!(ValueBag::from_fill(&|s: Slot| s.fill_any(v)), v, o, 1);
        let v: bool = any();
        forwards!(ValueBag::from_fill(&|s: Slot| s.fill_any(v)), v, o, 0);
    }

    /// Nothing.
    empty [40] ("min" "own"; "big" "all") {
        let o = flags();
        let none = format_args!("None");
        debugs!(ValueBag::empty(), none, o, 1);
        debugs!(ValueBag::from(None::<u64>), none, o, 0);
        debugs!(ValueBag::from(()), none, o, 0);
        displayed::<4>(&ValueBag::empty(), plain()).holds("None");
        debugged::<4>(&ValueBag::empty(), plain()).holds("None");
        displayed::<4>(&ValueBag::empty(), o).holds("None");
        debugged::<4>(&ValueBag::empty(), o).holds("None");
    }

    /// Any object captured for debugging, under any flags, with an output that fails at any point.
    debug_objects [40] ("min"; "own" "all") {
        let o = flags();
        let v = Probe(any());
        debugs!(ValueBag::from_debug(&v), v, o, 4);
        debugs!(ValueBag::capture_debug(&v), v, o, 4);
        debugs!(ValueBag::from_dyn_debug(&v), v, o, 0);
        debugs!(ValueBag::from_fill(&|s: Slot| s.fill_debug(v)), v, o, 4);
    }

    /// Any object captured for display, under any flags, with an output that fails at any point.
    display_objects [40] ("min"; "own" "all") {
        let o = flags();
        let v = Probe(any());
        displays!(ValueBag::from_display(&v), v, o, 4);
        displays!(ValueBag::capture_display(&v), v, o, 4);
        displays!(ValueBag::from_dyn_display(&v), v, o, 0);
        displays!(ValueBag::from_fill(&|s: Slot| s.fill_display(v)), v, o, 4);
    }

    /// Any object captured as shared, under any flags, with an output that fails at any point.
    shared_objects [40] ("alo"; "own" "all") {
        let o = flags();
        let v = Probe(any());
        let b = ValueBag::capture_shared_debug(v);
        debugs!(b, v, o, 4);
        debugs!(b.by_ref(), v, o, 0);
        let b = b.to_owned();
        debugs!(b.by_ref(), v, o, 0);
        debugs!(b, v, o, 0);
        let b = ValueBag::capture_shared_display(v);
        displays!(b, v, o, 4);
        displays!(b.by_ref(), v, o, 0);
        let b = b.to_owned();
        displays!(b, v, o, 0);
    }

    /// Any error, under any flags, with an output that fails at any point.
    errors [40] ("own"; "all") {
        let o = flags();
        let v = Probe(any());
        forwards!(ValueBag::capture_error(&v), v, o, 4);
        forwards!(ValueBag::from_dyn_error(&v), v, o, 0);
        forwards!(ValueBag::from_fill(&|s: Slot| s.fill_error(v)), v, o, 0);
        let b = ValueBag::capture_shared_error(v);
        forwards!(b, v, o, 4);
        forwards!(b.by_ref(), v, o, 0);
    }
}
