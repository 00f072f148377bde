//! C12: a bag streams through `sval` as the value it holds.

use crate::nd::any;
use crate::obs::*;
use crate::trace::*;
use value_bag::ValueBag;

/// A bag streams as `want`, and fails with the stream at any of `calls`.
macro_rules! streams {
    ($b:expr, $want:expr, $calls:expr) => {{
        match &$b {
            b => {
                let want: &[(Ev, u128)] = &$want;
                streamed::<8>(b, usize::MAX).is(want);
                let mut i = 0;
                while i < $calls {
                    let t = streamed::<8>(b, i);
                    assert!(t.failed, "a value was streamed in fewer events");
                    t.starts(want);
                    i += 1;
                }
            }
        }
    }};
}

/// A value streams the same from its bag as it does itself, and fails with the stream at any of `calls`.
macro_rules! same {
    ($r:expr, $b:expr, $calls:expr) => {{
        match &$b {
            b => {
                streamed::<18>(b, usize::MAX).same(&streamed::<18>($r, usize::MAX));
                let mut i = 0;
                while i < $calls {
                    streamed::<18>(b, i).same(&streamed::<18>($r, i));
                    i += 1;
                }
            }
        }
    }};
}

/// A value streams the same from its bag as it does itself, when it's not borrowed.
macro_rules! same_computed {
    ($r:expr, $b:expr) => {{
        match &$b {
            b => {
                streamed::<18>(b, usize::MAX).same(&streamed_computed::<18>($r));
            }
        }
    }};
}

#[inline(always)]
fn structured<const K: usize>() {
    let r = Rich::<K>::any();
    same!(&r, ValueBag::capture_sval2(&r), 2);
    same!(&r, ValueBag::from_sval2(&r), 0);
    same!(&r, ValueBag::from_dyn_sval2(&r), 0);
    same_computed!(&r, ValueBag::from_fill(&|s: value_bag::fill::Slot| s.fill_sval2(&r)));
}

harnesses! {
    /// Every value of every kind of primitive, with a stream that may fail.
    primitive [20] ("als"; "alf" "all") {
        let v: u64 = any();
        streams!(ValueBag::from(v), [(Ev::U64, v as u128)], 1);
        let v: i64 = any();
        streams!(ValueBag::from(v), [(Ev::I64, v as u128)], 1);
        let v: u128 = any();
        streams!(ValueBag::from(&v), [(Ev::U128, v)], 1);
        let v: i128 = any();
        streams!(ValueBag::from(&v), [(Ev::I128, v as u128)], 1);
        let v: f64 = any();
        streams!(ValueBag::from(v), [(Ev::F64, v.to_bits() as u128)], 1);
        let v: bool = any();
        streams!(ValueBag::from(v), [(Ev::Bool, v as u128)], 1);
        streams!(ValueBag::empty(), [(Ev::Null, 0)], 1);
    }

    /// Every value of each width of integer and float, captured or deferred.
    narrow [20] ("als"; "alf" "all") {
        let v: u8 = any();
        streams!(ValueBag::capture_debug(&v), [(Ev::U64, v as u128)], 1);
        let v: i32 = any();
        streams!(ValueBag::capture_sval2(&v), [(Ev::I64, v as i128 as u128)], 1);
        let v: u16 = any();
        streams!(ValueBag::from_fill(&|s: value_bag::fill::Slot| s.fill_any(v)), [(Ev::U64, v as u128)], 1);
        let v: f32 = any();
        crate::nd::assume(!v.is_nan());
        streams!(ValueBag::from(v), [(Ev::F64, (v as f64).to_bits() as u128)], 1);
        let v: i64 = any();
        streams!(ValueBag::capture_shared_debug(v), [(Ev::I64, v as u128)], 1);
    }

    /// Every ASCII string of 2 bytes, and every ASCII character, with a stream that may fail.
    text [20] ("als"; "alf" "all") {
        let v = Ascii::<2>::any();
        let s = v.get_static();
        streams!(ValueBag::from(s), [(Ev::BorrowedText, str_bits(s))], 3);
        streams!(ValueBag::capture_debug(&s), [(Ev::BorrowedText, str_bits(s))], 0);
        streams!(ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_any(s)), [(Ev::BorrowedText, str_bits(s))], 0);
        let v: u8 = any();
        crate::nd::assume(v < 128);
        streams!(ValueBag::from(v as char), [(Ev::Text, v as u128)], 3);
        streams!(ValueBag::from('€'), [(Ev::Text, str_bits("€"))], 0);
        streams!(ValueBag::from(""), [(Ev::BorrowedText, 0)], 0);
    }

    /// Objects captured for formatting, with a stream that may fail.
    formatted [20] ("als"; "alf" "all") {
        let v = Obj::any();
        let d = ((b'?' as u128) << 8) | v.0 as u128;
        streams!(ValueBag::from_debug(&v), [(Ev::Text, d)], 3);
        streams!(ValueBag::capture_debug(&v), [(Ev::Text, d)], 0);
        streams!(ValueBag::capture_shared_debug(v), [(Ev::Text, d)], 0);
        streams!(ValueBag::from_fill(&|s: value_bag::fill::Slot| s.fill_debug(v)), [(Ev::Text, d)], 0);
        let d = ((b'!' as u128) << 8) | v.0 as u128;
        streams!(ValueBag::from_display(&v), [(Ev::Text, d)], 3);
        streams!(ValueBag::capture_display(&v), [(Ev::Text, d)], 0);
        streams!(ValueBag::capture_shared_display(v), [(Ev::Text, d)], 0);
        streams!(ValueBag::from_fill(&|s: value_bag::fill::Slot| s.fill_display(v)), [(Ev::Text, d)], 0);
    }

    /// An error.
    error [20] ("svo"; "all") {
        let v = Obj::any();
        let d = ((b'!' as u128) << 8) | v.0 as u128;
        streams!(ValueBag::capture_error(&v), [(Ev::Text, d)], 3);
        streams!(ValueBag::from_dyn_error(&v), [(Ev::Text, d)], 0);
        streams!(ValueBag::capture_shared_error(v), [(Ev::Text, d)], 0);
    }

    /// Sequences of numbers with any contents, captured.
    numbers [20] ("als"; "alf" "all") {
        structured::<{ Form::Numbers }>();
        structured::<{ Form::Wide }>();
    }

    /// Text, bytes and options with any contents, captured.
    pieces [20] ("als"; "alf" "all") {
        structured::<{ Form::Text }>();
        structured::<{ Form::Bytes }>();
        structured::<{ Form::Present }>();
        structured::<{ Form::Missing }>();
        structured::<{ Form::Unit }>();
    }

    /// A sequence of text, a map and a nested sequence with any contents, captured.
    collections [20] ("als"; "alf" "all") {
        structured::<{ Form::Seq }>();
        structured::<{ Form::Map }>();
        structured::<{ Form::Nested }>();
    }

    /// A record, a tuple and variants of an enumeration with any contents, captured.
    records [20] ("als"; "alf" "all") {
        structured::<{ Form::Record }>();
        structured::<{ Form::Tuple }>();
        structured::<{ Form::Variant }>();
        structured::<{ Form::VariantValue }>();
    }

    /// Objects with any contents, captured as shared.
    shared [20] ("als"; "alf" "all") {
        let r = Rich::<{ Form::Seq }>::any();
        let b = ValueBag::capture_shared_sval2(r.clone());
        same_computed!(&r, b.by_ref());
        same_computed!(&r, b);
        let r = Rich::<{ Form::Record }>::any();
        let b = ValueBag::capture_shared_sval2(r.clone());
        same_computed!(&r, b.by_ref());
    }
}
