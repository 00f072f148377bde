//! C15: a sequence is output element by element, in order, until the first failure.

use crate::nd::any;
use crate::obs::*;
use crate::trace::*;
use value_bag::{fill::Slot, ValueBag};

/// A reference that a deferred value can hand out. It's only used for as long as `v` lives.
#[inline(always)]
fn forever<T>(v: &T) -> &'static T {
    // SAFETY: see above.
    unsafe { &*(v as *const T) }
}

/// A sequence is formatted as the slice is, and fails with the output at any of `writes`.
macro_rules! formats {
    ($v:expr, $b:expr, $writes:expr) => {{
        match &$b {
            b => {
                let want = debugged::<12>(&$v, plain());
                same_text(&debugged::<12>(b, plain()), &want);
                same_text(&displayed::<12>(b, plain()), &want);
                let mut i = 0;
                while i < $writes {
                    let got = failing(b, i);
                    let want = failing(&$v, i);
                    same_text(&got, &want);
                    i += 1;
                }
            }
        }
    }};
}

/// What's written to an output that fails after a number of writes.
#[inline(always)]
fn failing(v: &dyn std::fmt::Debug, accept: usize) -> Sink<12> {
    let mut s = Sink::<12>::new();
    s.accept = accept;
    let r = v.fmt(&mut std::fmt::Formatter::new(&mut s, plain()));
    assert!(r.is_err(), "the failure of an output was lost");
    s
}

/// A sequence is streamed as `want`, and fails with the stream at any of `calls`.
#[cfg(feature = "has-sval")]
macro_rules! streams {
    ($b:expr, $want:expr, $calls:expr) => {{
        match &$b {
            b => {
                let want: &[(Ev, u128)] = &$want;
                streamed::<12>(b, usize::MAX).is(want);
                let mut i = 0;
                while i < $calls {
                    let t = streamed::<12>(b, i);
                    assert!(t.failed && t.calls == i + 1, "a sequence was streamed in fewer events");
                    t.starts(want);
                    i += 1;
                }
            }
        }
    }};
}

/// A sequence is serialized as `want`, and fails with the serializer at any of `calls`.
#[cfg(feature = "has-serde")]
macro_rules! serializes {
    ($b:expr, $want:expr, $calls:expr) => {{
        match &$b {
            b => {
                let want: &[(Ev, u128)] = &$want;
                serialized::<12>(b, usize::MAX).is(want);
                let mut i = 0;
                while i < $calls {
                    let t = serialized::<12>(b, i);
                    assert!(t.failed && t.calls == i + 1, "a sequence was serialized in fewer events");
                    t.starts(want);
                    i += 1;
                }
            }
        }
    }};
}

/// A trace starts with things of these kinds.
macro_rules! starts {
    ($t:expr, $($i:literal $e:ident),*) => {
        $(assert!($t.at[$i].0 == Ev::$e, "a value was output as another kind");)*
    };
}

harnesses! {
    /// Sequences of 2 of any object, formatted to outputs that may fail.
    formatted [9] ("alo"; "own" "all") {
        let v = [Obj::any(), Obj::any()];
        formats!(v, ValueBag::from_seq_slice(&v), 5);
    }

    /// Sequences of other lengths and ways.
    formatted_others [9] ("alo"; "own" "all") {
        let v: [Obj; 0] = [];
        formats!(v, ValueBag::from_seq_slice(&v), 1);
        let v = [Obj::any()];
        formats!(v, ValueBag::from_fill(&|s: Slot| s.fill_seq_slice(forever(&v))), 2);
        let v = [Obj::any()];
        let b = ValueBag::capture_shared_seq_slice(v);
        formats!(v, b, 0);
        std::mem::forget(b);
    }

    /// Sequences of 2 of every number, streamed to streams that may fail.
    streamed [14] ("als"; "alf" "all") {
        let v: [u64; 2] = [any(), any()];
        let want = [(Ev::Seq, 0), (Ev::Item, 0), (Ev::U64, v[0] as u128), (Ev::ItemEnd, 0), (Ev::Item, 0), (Ev::U64, v[1] as u128), (Ev::ItemEnd, 0), (Ev::SeqEnd, 0)];
        streams!(ValueBag::from_seq_slice(&v), want, 8);
    }

    streamed_fill [14] ("als"; "alf" "all") {
        let v: [i64; 2] = [any(), any()];
        let want = [(Ev::Seq, 0), (Ev::Item, 0), (Ev::I64, v[0] as u128), (Ev::ItemEnd, 0), (Ev::Item, 0), (Ev::I64, v[1] as u128), (Ev::ItemEnd, 0), (Ev::SeqEnd, 0)];
        streams!(ValueBag::from_fill(&|s: Slot| s.fill_seq_slice(forever(&v))), want, 8);
        let v: [u64; 0] = [];
        streams!(ValueBag::from_seq_slice(&v), [(Ev::Seq, 0), (Ev::SeqEnd, 0)], 2);
    }

    /// Sequences of 1 of any object, which takes several calls, streamed to streams that may fail.
    streamed_objects [14] ("als"; "alf" "all") {
        let v = [Obj::any()];
        let d = ((b'?' as u128) << 8) | v[0].0 as u128;
        let want = [(Ev::Seq, 0), (Ev::Item, 0), (Ev::Text, d), (Ev::ItemEnd, 0), (Ev::SeqEnd, 0)];
        streams!(ValueBag::from_seq_slice(&v), want, 6);
    }

    /// Sequences in sequences.
    streamed_nested [4] ("als"; "alf" "all") {
        let v: [[bool; 1]; 2] = [[any()], [any()]];
        let b = ValueBag::from_seq_slice(&v);
        // Some of it will do.
        let t = streamed::<12>(&b, 9);
        assert!(t.failed && t.len == 9, "a sequence was streamed in fewer events");
        starts!(t, 0 Seq, 1 Item, 2 Seq, 3 Item, 4 Bool, 5 ItemEnd, 6 SeqEnd, 7 ItemEnd, 8 Item);
        assert!(t.at[4].1 == v[0][0] as u128, "a value changed when it was output");
        let t = streamed::<12>(&b, 4);
        assert!(t.failed && t.len == 4, "a sequence was streamed in fewer events");
        starts!(t, 0 Seq, 1 Item, 2 Seq, 3 Item);
    }

    /// Sequences of 2 of every number, serialized to serializers that may fail.
    serialized [14] ("ald"; "alf" "all") {
        let v: [u64; 2] = [any(), any()];
        let want = [(Ev::Seq, 0), (Ev::Item, 0), (Ev::U64, v[0] as u128), (Ev::Item, 0), (Ev::U64, v[1] as u128), (Ev::SeqEnd, 0)];
        serializes!(ValueBag::from_seq_slice(&v), want, 6);
    }

    serialized_fill [14] ("ald"; "alf" "all") {
        let v: [i64; 2] = [any(), any()];
        let want = [(Ev::Seq, 0), (Ev::Item, 0), (Ev::I64, v[0] as u128), (Ev::Item, 0), (Ev::I64, v[1] as u128), (Ev::SeqEnd, 0)];
        serializes!(ValueBag::from_fill(&|s: Slot| s.fill_seq_slice(forever(&v))), want, 6);
        let v: [u64; 0] = [];
        serializes!(ValueBag::from_seq_slice(&v), [(Ev::Seq, 0), (Ev::SeqEnd, 0)], 2);
    }

    /// Sequences of 1 of any object, which takes several calls, serialized to serializers that may fail.
    serialized_objects [14] ("ald"; "alf" "all") {
        let v = [Obj::any()];
        let d = ((b'?' as u128) << 8) | v[0].0 as u128;
        let want = [(Ev::Seq, 0), (Ev::Item, 0), (Ev::Text, d), (Ev::SeqEnd, 0)];
        serializes!(ValueBag::from_seq_slice(&v), want, 5);
    }

    /// Sequences in sequences.
    serialized_nested [4] ("ald"; "alf" "all") {
        let v: [[bool; 1]; 2] = [[any()], [any()]];
        let b = ValueBag::from_seq_slice(&v);
        // Some of it will do.
        let t = serialized::<12>(&b, 7);
        assert!(t.failed && t.len == 7, "a sequence was serialized in fewer events");
        starts!(t, 0 Seq, 1 Item, 2 Seq, 3 Item, 4 Bool, 5 SeqEnd, 6 Item);
        assert!(t.at[4].1 == v[0][0] as u128, "a value changed when it was output");
        let t = serialized::<12>(&b, 4);
        assert!(t.failed && t.len == 4, "a sequence was serialized in fewer events");
        starts!(t, 0 Seq, 1 Item, 2 Seq, 3 Item);
    }
}
