//! C13: the two frameworks see the same value.

use crate::nd::any;
use crate::obs::*;
use crate::trace::*;
use value_bag::{fill::Slot, ValueBag};

/// What a value is to either framework: its values and the beginnings and ends of what nests.
struct Shape<const N: usize> {
    at: [(Ev, u128); N],
    len: usize,
}

/// What stands for the same in both frameworks, or nothing if only one has it.
#[inline(always)]
fn common(e: Ev) -> Option<Ev> {
    match crate::trace::class(e) {
        Ev::Null | Ev::Unit | Ev::Tag => Some(Ev::Null),
        Ev::F32 => Some(Ev::F64),
        Ev::Char => Some(Ev::Text),
        Ev::Tuple => Some(Ev::Seq),
        Ev::TupleEnd => Some(Ev::SeqEnd),
        Ev::Record => Some(Ev::Map),
        Ev::RecordEnd => Some(Ev::MapEnd),
        Ev::Some | Ev::Enum | Ev::EnumEnd | Ev::Tagged | Ev::TaggedEnd => None,
        Ev::Item | Ev::ItemEnd | Ev::TupleItem | Ev::TupleItemEnd => None,
        Ev::Key | Ev::KeyEnd | Ev::Value | Ev::ValueEnd | Ev::FieldEnd => None,
        e => Some(e),
    }
}

/// What nests is named in one framework and may not be in the other.
#[inline(always)]
fn bits(e: Ev, bits: u128) -> u128 {
    match e {
        Ev::Null | Ev::Seq | Ev::SeqEnd | Ev::Map | Ev::MapEnd => 0,
        _ => bits,
    }
}

#[inline(always)]
fn shape<const N: usize>(t: &Trace<N>) -> Shape<N> {
    let mut s = Shape { at: [(Ev::Nothing, 0); N], len: 0 };
    let mut i = 0;
    while i < t.len {
        if let Some(e) = common(t.at[i].0) {
            s.at[s.len] = (e, bits(e, t.at[i].1));
            s.len += 1;
        }
        i += 1;
    }
    s
}

/// One framework sees what the other does.
#[inline(always)]
fn seen<const N: usize>(got: &Trace<N>, want: &Trace<N>) {
    let (got, want) = (shape(got), shape(want));
    assert!(got.len == want.len, "a framework sees a different number of things");
    let mut i = 0;
    while i < want.len {
        assert!(got.at[i].0 == want.at[i].0, "a framework sees another kind of value");
        assert!(got.at[i].1 == want.at[i].1, "a framework sees another value");
        i += 1;
    }
}

/// A failure comes back. `streamed` and `serialized` check that, and that there's no output after it.
#[inline(always)]
fn fails<const N: usize>(t: &Trace<N>) {
    assert!(t.failed, "there was less output than there is");
}

#[inline(always)]
fn to_sval<const K: usize>() {
    let r = Rich::<K>::any();
    let want = serialized::<18>(&r, usize::MAX);
    let b = std::mem::ManuallyDrop::new(ValueBag::capture_serde1(&r));
    seen(&streamed::<18>(&*b, usize::MAX), &want);
    fails(&streamed::<18>(&*b, 0));
    seen(&streamed::<18>(&ValueBag::from_serde1(&r), usize::MAX), &want);
}

/// A primitive, seen by both.
macro_rules! primitive {
    ($($t:ident)*) => {
        $(
            let v: $t = any();
            let want = streamed::<4>(&v, usize::MAX);
            match &*std::mem::ManuallyDrop::new(ValueBag::capture_sval2(&v)) {
                b => seen(&serialized::<4>(b, usize::MAX), &want),
            }
            match &*std::mem::ManuallyDrop::new(ValueBag::capture_serde1(&v)) {
                b => seen(&streamed::<4>(b, usize::MAX), &want),
            }
            match &*std::mem::ManuallyDrop::new(ValueBag::from_serde1(&v)) {
                b => seen(&streamed::<4>(b, usize::MAX), &want),
            }
        )*
    };
}

harnesses! {
    /// Every value of each kind of number.
    numbers [20] ("alf"; "all") {
        primitive!(u64 i64);
    }

    /// Every value of each kind of number that isn't 64 bits.
    others [20] ("alf"; "all") {
        primitive!(u8 i32 f64 bool);
    }

    /// Every value of each width of 128 bits.
    wide [20] ("alf"; "all") {
        primitive!(u128 i128);
    }

    /// A sequence of numbers with any contents, from `serde`.
    serde_numbers [20] ("alf"; "all") {
        to_sval::<{ Form::Numbers }>();
    }

    /// Text with any contents, from `serde`.
    serde_text [20] ("alf"; "all") {
        to_sval::<{ Form::Text }>();
        to_sval::<{ Form::Unit }>();
        to_sval::<{ Form::Present }>();
        to_sval::<{ Form::Missing }>();
    }

    /// A sequence of text with any contents, from `serde`.
    serde_seq [20] ("alf"; "all") {
        to_sval::<{ Form::Seq }>();
    }

    /// A nested sequence with any contents, from `serde`.
    serde_nested [20] ("alf"; "all") {
        to_sval::<{ Form::Nested }>();
    }

    /// A map with any contents, from `serde`.
    serde_map [20] ("alf"; "all") {
        to_sval::<{ Form::Map }>();
    }

    /// A record and a tuple with any contents, from `serde`.
    serde_records [20] ("alf"; "all") {
        to_sval::<{ Form::Record }>();
        to_sval::<{ Form::Tuple }>();
    }

    /// Variants of an enumeration with any contents, from `serde`.
    serde_variants [20] ("alf"; "all") {
        to_sval::<{ Form::VariantValue }>();
    }

    /// Bytes and wide numbers with any contents, from `serde`.
    serde_wide [20] ("alf"; "all") {
        to_sval::<{ Form::Wide }>();
    }

    /// A sequence, deferred or shared, and failing at any call, from `serde`.
    serde_failing [20] ("alf"; "all") {
        let r = Rich::<{ Form::Seq }>::any();
        let want = serialized::<18>(&r, usize::MAX);
        match &*std::mem::ManuallyDrop::new(ValueBag::from_fill(&|s: Slot| s.fill_serde1(&r))) {
            b => seen(&streamed::<18>(b, usize::MAX), &want),
        }
        match &*std::mem::ManuallyDrop::new(ValueBag::from_serde1(&r)) {
            b => {
                fails(&streamed::<18>(b, 1));
                fails(&streamed::<18>(b, 2));
                fails(&streamed::<18>(b, 4));
                fails(&streamed::<18>(b, 6));
            }
        }
    }
}
