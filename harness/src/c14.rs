//! C14: extracting a sequence yields one item per element, in order.

use crate::nd::any;
use crate::obs::*;
use std::borrow::Cow;
use value_bag::{fill::Slot, ValueBag};

/// Collected items that aren't optional.
struct Plain<const N: usize>([f64; N], usize);

impl<const N: usize> Default for Plain<N> {
    fn default() -> Self {
        Plain([0.0; N], 0)
    }
}

impl<const N: usize> Extend<f64> for Plain<N> {
    fn extend<I: IntoIterator<Item = f64>>(&mut self, iter: I) {
        for i in iter {
            assert!(self.1 < N, "more items were extracted than there are");
            self.0[self.1] = i;
            self.1 += 1;
        }
    }
}

/// Collected text: where it is, or what it is.
#[derive(Default)]
struct Texts {
    at: [Option<u128>; 4],
    borrowed: [bool; 4],
    len: usize,
}

impl<'v> Extend<Option<Cow<'v, str>>> for Texts {
    fn extend<I: IntoIterator<Item = Option<Cow<'v, str>>>>(&mut self, iter: I) {
        for i in iter {
            assert!(self.len < 4, "more items were extracted than there are");
            if let Some(s) = i {
                self.at[self.len] = Some(str_bits(&s));
                self.borrowed[self.len] = matches!(s, Cow::Borrowed(_));
            }
            self.len += 1;
        }
    }
}

macro_rules! same_items {
    ($b:expr, $n:expr, [$($i:literal $e:expr),*], $t:ty, $seq:ident, $to:ident) => {{
        let got: Items<$t, 4> = $b.$seq().expect("a sequence wasn't extracted");
        assert!(got.len == $n, "another number of items was extracted");
        $(assert!(got.at[$i] == $e.$to(), "an item isn't what its element converts to");)*
    }};
}

fn bits(v: Option<f64>) -> Option<u64> {
    v.map(f64::to_bits)
}

/// Some extractions do.
macro_rules! ints {
    ($b:expr, $n:expr, [$($i:literal $e:expr),*]) => {{
        match &$b { b => {
            same_items!(b, $n, [$($i $e),*], u64, to_u64_seq, to_u64);
            same_items!(b, $n, [$($i $e),*], i64, to_i64_seq, to_i64);
        }}
    }};
}

macro_rules! wide_ints {
    ($b:expr, $n:expr, [$($i:literal $e:expr),*]) => {{
        match &$b { b => {
            same_items!(b, $n, [$($i $e),*], u128, to_u128_seq, to_u128);
            same_items!(b, $n, [$($i $e),*], i128, to_i128_seq, to_i128);
        }}
    }};
}

macro_rules! floats {
    ($b:expr, $n:expr, [$($i:literal $e:expr),*]) => {{
        match &$b { b => {
            let got: Items<f64, 4> = b.to_f64_seq().expect("a sequence wasn't extracted");
            assert!(got.len == $n, "another number of items was extracted");
            $(assert!(bits(got.at[$i]) == bits($e.to_f64()), "an item isn't what its element converts to");)*
            let got: Plain<4> = b.as_f64_seq();
            assert!(got.1 == $n, "another number of items was extracted");
            $(same_f64(got.0[$i], $e.as_f64());)*
        }}
    }};
}

/// Every numeric extraction yields what its elements convert to.
macro_rules! numbers {
    ($b:expr, $n:expr, [$($i:literal $e:expr),*]) => {{
        match &$b { b => {
            ints!(*b, $n, [$($i $e),*]);
            wide_ints!(*b, $n, [$($i $e),*]);
            floats!(*b, $n, [$($i $e),*]);
        }}
    }};
}

/// Every other extraction does.
macro_rules! others {
    ($b:expr, $n:expr, [$($i:literal $e:expr),*]) => {{
        match &$b { b => {
            same_items!(b, $n, [$($i $e),*], bool, to_bool_seq, to_bool);
            same_items!(b, $n, [$($i $e),*], char, to_char_seq, to_char);
        }}
    }};
}

/// Text does, and it's the very text that's borrowed if it's borrowed.
macro_rules! texts {
    ($b:expr, $n:expr, $borrowed:expr, [$($i:literal $s:expr),*]) => {{
        match &$b { b => {
            let got: Items<&str, 4> = b.to_borrowed_str_seq().expect("a sequence wasn't extracted");
            assert!(got.len == $n, "another number of items was extracted");
            $(
                let s: Option<&str> = $s;
                match (got.at[$i], s) {
                    (Some(a), Some(b)) => assert!($borrowed && a.as_ptr() == b.as_ptr() && a.len() == b.len(), "other text was borrowed"),
                    (None, Some(_)) => assert!(!$borrowed, "text wasn't borrowed"),
                    (a, b) => assert!(a.is_none() && b.is_none(), "text was borrowed from something else"),
                }
            )*
            let got: Texts = b.to_str_seq().expect("a sequence wasn't extracted");
            assert!(got.len == $n, "another number of items was extracted");
            $(
                let s: Option<&str> = $s;
                assert!(got.at[$i] == s.map(str_bits), "an item isn't what its element converts to");
                assert!(got.borrowed[$i] == ($borrowed && s.is_some()), "text was borrowed or not");
            )*
        }}
    }};
}

/// Not a sequence.
#[inline(always)]
fn nothing_extracted(b: &ValueBag) {
    assert!(b.to_u64_seq::<Items<u64, 4>>().is_none(), "a sequence was extracted from something else");
    assert!(b.to_i64_seq::<Items<i64, 4>>().is_none(), "a sequence was extracted from something else");
    assert!(b.to_f64_seq::<Items<f64, 4>>().is_none(), "a sequence was extracted from something else");
    assert!(b.to_bool_seq::<Items<bool, 4>>().is_none(), "a sequence was extracted from something else");
    assert!(b.to_borrowed_str_seq::<Items<&str, 4>>().is_none(), "a sequence was extracted from something else");
    assert!(b.as_f64_seq::<Plain<4>>().1 == 0, "a sequence was extracted from something else");
}

/// A reference that a deferred value can hand out. It's only used for as long as `v` lives.
#[inline(always)]
fn forever<T>(v: &T) -> &'static T {
    // SAFETY: see above.
    unsafe { &*(v as *const T) }
}

/// Elements of a slice of 2.
macro_rules! slices {
    ($from:ident, $t:ty, $check:ident) => {{
        let v: [$t; 2] = [any(), any()];
        $check!(ValueBag::$from(&v), 2, [0 ValueBag::from(&v[0]), 1 ValueBag::from(&v[1])]);
    }};
}

/// A sequence of two values through a framework.
#[derive(Clone)]
struct Pair<A, B>(A, B);

#[cfg(feature = "has-sval")]
impl<A: ::sval::Value, B: ::sval::Value> ::sval::Value for Pair<A, B> {
    fn stream<'sval, S: ::sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> ::sval::Result {
        s.seq_begin(Some(2))?;
        s.seq_value_begin()?;
        s.value(&self.0)?;
        s.seq_value_end()?;
        s.seq_value_begin()?;
        s.value(&self.1)?;
        s.seq_value_end()?;
        s.seq_end()
    }
}

silent_harnesses! {
    /// Slices of 2 of every number.
    unsigned [4] ("alo"; "big" "all") {
        slices!(from_seq_slice, u64, numbers);
        slices!(from, u8, ints);
        slices!(from, u16, ints);
        slices!(from_seq_slice, usize, ints);
    }

    signed [4] ("alo"; "big" "all") {
        slices!(from, i64, numbers);
        slices!(from_seq_slice, i32, ints);
        slices!(from, i8, ints);
    }

    wide [4] ("alo"; "big" "all") {
        slices!(from_seq_slice, u128, wide_ints);
        slices!(from, i128, wide_ints);
    }

    /// Slices of 2 of every float, boolean and character.
    others [4] ("alo"; "big" "all") {
        slices!(from, f64, floats);
        slices!(from_seq_slice, f64, others);
        slices!(from, bool, others);
        slices!(from, char, others);
        slices!(from_seq_slice, u64, others);
        slices!(from, bool, ints);
    }

    /// Slices of 2 of any ASCII text.
    text [4] ("alo"; "own" "big" "all") {
        let (s, t) = (Ascii::<2>::any(), Ascii::<1>::any());
        let v = [s.get(), t.get()];
        texts!(ValueBag::from_seq_slice(&v), 2, true, [0 Some(s.get()), 1 Some(t.get())]);
        ints!(ValueBag::from(&v), 2, [0 ValueBag::empty(), 1 ValueBag::empty()]);
        others!(ValueBag::from(&v), 2, [0 ValueBag::empty(), 1 ValueBag::empty()]);
        let v: [u64; 2] = [any(), any()];
        texts!(ValueBag::from_seq_slice(&v), 2, false, [0 None, 1 None]);
    }

    /// Slices of other lengths.
    lengths [6] ("alo"; "own" "big" "all") {
        let v: [u64; 0] = [];
        ints!(ValueBag::from_seq_slice(&v), 0, []);
        let v: [i64; 1] = [any()];
        ints!(ValueBag::from_seq_slice(&v), 1, [0 ValueBag::from(v[0])]);
        let v: [u64; 4] = [any(), any(), any(), any()];
        same_items!(ValueBag::from(&v), 4, [0 ValueBag::from(v[0]), 1 ValueBag::from(v[1]), 2 ValueBag::from(v[2]), 3 ValueBag::from(v[3])], u64, to_u64_seq, to_u64);
        same_items!(ValueBag::from_seq_slice(&&v[1..]), 3, [0 ValueBag::from(v[1]), 1 ValueBag::from(v[2]), 2 ValueBag::from(v[3])], i64, to_i64_seq, to_i64);
    }

    /// Deferred, and nested in each other.
    fill [4] ("alo"; "own" "big" "all") {
        let v: [i64; 2] = [any(), any()];
        ints!(ValueBag::from_fill(&|s: Slot| s.fill_seq_slice(forever(&v))), 2, [0 ValueBag::from(v[0]), 1 ValueBag::from(v[1])]);
        let v: [bool; 2] = [any(), any()];
        others!(ValueBag::from_fill(&|s: Slot| s.fill_seq_slice(forever(&v))), 2, [0 ValueBag::from(v[0]), 1 ValueBag::from(v[1])]);
        let s = Ascii::<2>::any();
        let v = [s.get_static()];
        texts!(ValueBag::from_fill(&|s: Slot| s.fill_seq_slice(forever(&v))), 1, false, [0 Some(s.get())]);
    }

    /// Slices of slices.
    nested [4] ("alo"; "own" "big" "all") {
        let v: [[u64; 2]; 2] = [[any(), any()], [any(), any()]];
        ints!(ValueBag::from_seq_slice(&v), 2, [0 ValueBag::empty(), 1 ValueBag::empty()]);
        others!(ValueBag::from_seq_slice(&v), 2, [0 ValueBag::empty(), 1 ValueBag::empty()]);
    }

    /// Captured as shared.
    shared [4] ("alo"; "own" "big" "all") {
        let v: [u64; 2] = [any(), any()];
        let b = ValueBag::capture_shared_seq_slice(v);
        numbers!(b, 2, [0 ValueBag::from(v[0]), 1 ValueBag::from(v[1])]);
        std::mem::forget(b);
    }

    /// What isn't a sequence.
    not_sequences [4] ("alo"; "own" "big" "all") {
        nothing_extracted(&ValueBag::from(any::<u64>()));
        nothing_extracted(&ValueBag::from(any::<f64>()));
        nothing_extracted(&ValueBag::from(any::<bool>()));
        nothing_extracted(&ValueBag::from(any::<char>()));
        nothing_extracted(&ValueBag::empty());
        let s = Ascii::<2>::any();
        nothing_extracted(&ValueBag::from(s.get()));
        let v = Obj::any();
        nothing_extracted(&ValueBag::capture_debug(&v));
        nothing_extracted(&ValueBag::from_display(&v));
    }

    /// Captured through `sval`.
    sval [4] ("als"; "alf" "all") {
        let v = Pair(any::<i64>(), any::<u64>());
        ints!(ValueBag::capture_sval2(&v), 2, [0 ValueBag::from(v.0), 1 ValueBag::from(v.1)]);
        let v = Pair(any::<u8>(), any::<i32>());
        ints!(ValueBag::from_sval2(&v), 2, [0 ValueBag::from(v.0), 1 ValueBag::from(v.1)]);
    }

    sval_floats [4] ("als"; "alf" "all") {
        let v = Pair(any::<f64>(), any::<bool>());
        floats!(ValueBag::from_sval2(&v), 2, [0 ValueBag::from(v.0), 1 ValueBag::from(v.1)]);
        others!(ValueBag::capture_sval2(&v), 2, [0 ValueBag::from(v.0), 1 ValueBag::from(v.1)]);
    }

    sval_wide [4] ("als"; "alf" "all") {
        let v = Pair(any::<i128>(), any::<u128>());
        wide_ints!(ValueBag::capture_sval2(&v), 2, [0 ValueBag::from(&v.0), 1 ValueBag::from(&v.1)]);
        ints!(ValueBag::capture_sval2(&v), 2, [0 ValueBag::from(&v.0), 1 ValueBag::from(&v.1)]);
    }

    sval_text [4] ("als"; "alf" "all") {
        let s = Ascii::<2>::any();
        let v = Pair(s.get(), any::<u64>());
        texts!(ValueBag::from_sval2(&v), 2, true, [0 Some(s.get()), 1 None]);
        ints!(ValueBag::from_sval2(&v), 2, [0 ValueBag::empty(), 1 ValueBag::from(v.1)]);
    }

    /// Sequences nested in sequences, through `sval`.
    sval_nested [4] ("als"; "alf" "all") {
        let v = Pair(Pair(any::<u64>(), any::<u64>()), any::<u64>());
        ints!(ValueBag::capture_sval2(&v), 2, [0 ValueBag::empty(), 1 ValueBag::from(v.1)]);
        let v = Pair(any::<u64>(), Pair(any::<bool>(), Pair(any::<u64>(), any::<u64>())));
        ints!(ValueBag::capture_sval2(&v), 2, [0 ValueBag::from(v.0), 1 ValueBag::empty()]);
    }

    sval_nested_text [4] ("als"; "alf" "all") {
        let s = Ascii::<2>::any();
        let v = Pair(Pair(s.get(), ()), s.get());
        texts!(ValueBag::from_sval2(&v), 2, true, [0 None, 1 Some(s.get())]);
        let v = Pair(any::<u64>(), ());
        ints!(ValueBag::capture_sval2(&v), 2, [0 ValueBag::from(v.0), 1 ValueBag::empty()]);
    }

    /// What isn't a sequence, and what is one when it's deferred, through `sval`.
    sval_others [4] ("als"; "alf" "all") {
        let v: u64 = any();
        nothing_extracted(&ValueBag::from_sval2(&v));
        let s = Ascii::<2>::any();
        let v = s.get();
        nothing_extracted(&ValueBag::from_sval2(&v));
        let v = Pair(any::<u64>(), any::<i64>());
        ints!(ValueBag::from_fill(&|s: Slot| s.fill_sval2(&v)), 2, [0 ValueBag::from(v.0), 1 ValueBag::from(v.1)]);
    }
}
