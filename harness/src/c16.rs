//! C16: a deferred value is the value its slot is filled with.

use crate::nd::any;
use crate::obs::*;
use std::fmt::FormattingOptions;
use value_bag::{fill::Slot, Error, ValueBag};

/// A deferred value converts as the value does.
#[inline(always)]
fn converts(b: &ValueBag, want: &ValueBag) {
    assert!(b.to_u64() == want.to_u64(), "a deferred value converts to something else");
    assert!(b.to_i64() == want.to_i64(), "a deferred value converts to something else");
    assert!(b.to_u128() == want.to_u128(), "a deferred value converts to something else");
    assert!(b.to_i128() == want.to_i128(), "a deferred value converts to something else");
    assert!(b.to_f64().map(f64::to_bits) == want.to_f64().map(f64::to_bits), "a deferred value converts to something else");
    same_f64(b.as_f64(), want.as_f64());
    assert!(b.to_bool() == want.to_bool(), "a deferred value converts to something else");
    assert!(b.to_char() == want.to_char(), "a deferred value converts to something else");
}

/// A deferred value is observed as the value is.
#[inline(always)]
fn observes<const N: usize>(b: &ValueBag, want: &ValueBag, o: FormattingOptions) {
    let (got, want) = (visited(b), visited(want));
    assert!(got.calls == 1 && class(got.kind) == class(want.kind), "a deferred value was visited as another kind");
    assert!(got.bits == want.bits, "a deferred value changed when it was visited");
}

/// It's also formatted as the value is.
#[inline(always)]
fn deferred<const N: usize>(b: &ValueBag, want: &ValueBag, o: FormattingOptions) {
    observes::<N>(b, want, o);
    same_text(&debugged::<N>(b, o), &debugged::<N>(want, o));
    same_text(&displayed::<N>(b, o), &displayed::<N>(want, o));
}

/// A value, deferred once and twice.
macro_rules! defer {
    ($v:expr, $o:expr) => {{
        let v = $v;
        match &ValueBag::from_fill(&|s: Slot| s.fill_any(v)) {
            b => {
                converts(b, &ValueBag::from(v));
                deferred::<32>(b, &ValueBag::from(v), $o);
            }
        }
    }};
}

macro_rules! defer_twice {
    ($v:expr) => {{
        let v = $v;
        let inner = move |s: Slot| s.fill_any(v);
        match &ValueBag::from_fill(&move |s: Slot| s.fill_any(ValueBag::from_fill(forever(&inner)))) {
            b => {
                converts(b, &ValueBag::from(v));
                observes::<32>(b, &ValueBag::from(v), plain());
            }
        }
    }};
}

/// A reference that a deferred value can hand out. It's only used for as long as `v` lives.
#[inline(always)]
fn forever<T>(v: &T) -> &'static T {
    // SAFETY: see above.
    unsafe { &*(v as *const T) }
}

/// An object filled in, rather than held.
macro_rules! filled {
    ($o:expr, $($fill:ident $from:ident)*) => {
        $(
            let v = Probe(any());
            match &ValueBag::from_fill(&|s: Slot| s.$fill(Probe(v.0))) {
                b => {
                    deferred::<12>(b, &ValueBag::$from(&v), $o);
                    converts(b, &ValueBag::empty());
                }
            }
        )*
    };
}

harnesses! {
    /// Every integer, under any flags.
    integers [34] ("min"; "own" "big" "all") {
        let o = flags();
        defer!(any::<u64>(), o);
        defer!(any::<i64>(), o);
        defer!(any::<u8>(), o);
    }

    /// Every 128 bit integer.
    wide_integers [34] ("min" "big"; "own" "all") {
        let o = plain();
        let v: u128 = any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_any(forever(&v))) {
            b => {
                converts(b, &ValueBag::from(&v));
                deferred::<32>(b, &ValueBag::from(&v), o);
            }
        }
        let v: i128 = any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_any(forever(&v))) {
            b => {
                converts(b, &ValueBag::from(&v));
                deferred::<32>(b, &ValueBag::from(&v), o);
            }
        }
    }

    /// Every float, boolean and character, and nothing, under any flags.
    others [34] ("min"; "own" "big" "all") {
        let o = flags();
        defer!(any::<f64>(), o);
        defer!(any::<char>(), o);
        defer!(true, o);
        defer!(false, o);
        defer!((), o);
    }

    /// Every ASCII string of 2 bytes, under any flags.
    text [34] ("min"; "own" "big" "all") {
        #[cfg(kani)]
        unsafe { crate::stubs::format::FLAGS = true };
        let o = flags();
        let v = Ascii::<2>::any();
        let s = v.get_static();
        defer!(s, o);
        match &ValueBag::from_fill(&|slot: Slot| slot.fill_any(s)) {
            b => text_light(b, s),
        }
    }

    /// Any object, under any flags.
    objects [34] ("min"; "own" "all") {
        let o = flags();
        filled!(o, fill_debug from_debug fill_display from_display);
    }

    /// Any error, under any flags.
    errors [34] ("own"; "all") {
        let o = flags();
        filled!(o, fill_error capture_error);
        let v = Probe(any());
        match &ValueBag::from_fill(&|s: Slot| s.fill_dyn_error(&v)) {
            b => deferred::<12>(b, &ValueBag::from_dyn_error(&v), o),
        }
    }

    /// Values that are deferred twice.
    twice [6] ("min"; "own" "big" "all") {
        defer_twice!(any::<u64>());
        defer_twice!(any::<i64>());
        defer_twice!(any::<f64>());
        defer_twice!(any::<bool>());
        defer_twice!(any::<char>());
        defer_twice!(());
    }

    /// Fills that fail.
    failing [12] ("min"; "own" "big" "all") {
        let b = &ValueBag::from_fill(&|_: Slot| Err(Error::msg("V")));
        converts(b, &ValueBag::empty());
        let mut log = Log::new();
        assert!(ok(b.visit(&mut log)).is_none(), "a failed fill was visited");
        assert!(log.calls == 0, "a failed fill was visited");
        let mut s = Sink::<12>::new();
        assert!(std::fmt::Debug::fmt(b, &mut std::fmt::Formatter::new(&mut s, plain())).is_err(), "a failed fill was formatted");
        assert!(std::fmt::Display::fmt(b, &mut std::fmt::Formatter::new(&mut s, plain())).is_err(), "a failed fill was formatted");
    }

    /// Streamed.
    streamed [20] ("als"; "alf" "all") {
        use crate::trace::*;
        let v: u64 = any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_any(v)) {
            b => streamed::<18>(b, usize::MAX).alike(&streamed::<18>(&ValueBag::from(v), usize::MAX)),
        }
        let v: char = any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_any(v)) {
            b => streamed::<18>(b, usize::MAX).alike(&streamed::<18>(&ValueBag::from(v), usize::MAX)),
        }
        let v = Obj::any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_display(v)) {
            b => streamed::<18>(b, usize::MAX).alike(&streamed::<18>(&ValueBag::from_display(&v), usize::MAX)),
        }
        let v = Rich::<{ Form::Seq }>::any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_sval2(&v)) {
            b => {
                streamed::<18>(b, usize::MAX).alike(&streamed::<18>(&v, usize::MAX));
                streamed::<18>(b, 2).alike(&streamed::<18>(&v, 2));
            }
        }
        match &ValueBag::from_fill(&|_: Slot| Err(Error::msg("V"))) {
            b => {
                let mut t = Trace::<18>::new();
                assert!(::sval::stream(&mut t, b).is_err() && t.calls == 0, "a failed fill was streamed");
            }
        }
    }

    /// Serialized.
    serialized [20] ("ald"; "alf" "all") {
        use crate::trace::*;
        let v: u64 = any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_any(v)) {
            b => serialized::<18>(b, usize::MAX).alike(&serialized::<18>(&ValueBag::from(v), usize::MAX)),
        }
        let v: char = any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_any(v)) {
            b => serialized::<18>(b, usize::MAX).alike(&serialized::<18>(&ValueBag::from(v), usize::MAX)),
        }
        let v = Obj::any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_display(v)) {
            b => serialized::<18>(b, usize::MAX).alike(&serialized::<18>(&ValueBag::from_display(&v), usize::MAX)),
        }
        let v = Rich::<{ Form::Seq }>::any();
        match &ValueBag::from_fill(&|s: Slot| s.fill_serde1(&v)) {
            b => {
                serialized::<18>(b, usize::MAX).alike(&serialized::<18>(&v, usize::MAX));
                serialized::<18>(b, 2).alike(&serialized::<18>(&v, 2));
            }
        }
        match &ValueBag::from_fill(&|_: Slot| Err(Error::msg("V"))) {
            b => {
                use ::serde_core::Serialize;
                let mut t = Trace::<18>::new();
                assert!(b.serialize(Rec::new(&mut t)).is_err() && t.calls == 0, "a failed fill was serialized");
            }
        }
    }
}
