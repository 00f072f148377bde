//! Recorders for what a value outputs through a serialization framework.

use crate::obs::str_bits;

/// One thing output.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Nothing,
    Null,
    Unit,
    Some,
    Bool,
    Char,
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
    F32,
    F64,
    Text,
    BorrowedText,
    Bytes,
    Seq,
    Item,
    ItemEnd,
    SeqEnd,
    Map,
    Key,
    KeyEnd,
    Value,
    ValueEnd,
    MapEnd,
    Record,
    Field,
    FieldEnd,
    RecordEnd,
    Tuple,
    TupleItem,
    TupleItemEnd,
    TupleEnd,
    Enum,
    EnumEnd,
    Tagged,
    TaggedEnd,
    Tag,
    Newtype,
    Variant,
}

/// What was output, in order.
pub struct Trace<const N: usize> {
    pub at: [(Ev, u128); N],
    pub len: usize,
    /// The calls that were made. Text takes several.
    pub calls: usize,
    /// The call that fails.
    pub fail_at: usize,
    pub failed: bool,
    text: u128,
    text_len: usize,
    borrowed: bool,
}

impl<const N: usize> Trace<N> {
    #[inline(always)]
    pub fn new() -> Self {
        Trace::failing(usize::MAX)
    }

    #[inline(always)]
    pub fn failing(fail_at: usize) -> Self {
        Trace { at: [(Ev::Nothing, 0); N], len: 0, calls: 0, fail_at, failed: false, text: 0, text_len: 0, borrowed: true }
    }

    /// Whether the next call succeeds.
    #[inline(always)]
    fn call(&mut self) -> bool {
        assert!(!self.failed, "there was more output after it failed");
        self.failed = self.calls == self.fail_at;
        self.calls += 1;
        !self.failed
    }

    #[inline(always)]
    fn push(&mut self, ev: Ev, bits: u128) -> bool {
        if !self.call() {
            return false;
        }
        assert!(self.len < N, "there was more output than there is to output");
        self.at[self.len] = (ev, bits);
        self.len += 1;
        true
    }

    #[inline(always)]
    fn text_begin(&mut self) -> bool {
        self.text = 0;
        self.text_len = 0;
        self.borrowed = true;
        self.call()
    }

    #[inline(always)]
    fn fragment(&mut self, s: &str, borrowed: bool) -> bool {
        if !self.call() {
            return false;
        }
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            self.text = (self.text << 8) | b[i] as u128;
            i += 1;
        }
        self.text_len += b.len();
        self.borrowed &= borrowed;
        true
    }

    /// The output was `want`.
    #[inline(always)]
    pub fn is(&self, want: &[(Ev, u128)]) {
        assert!(!self.failed && self.len == want.len(), "a value was output as a different number of things");
        self.starts(want);
    }

    /// The output was the beginning of `want`.
    #[inline(always)]
    pub fn starts(&self, want: &[(Ev, u128)]) {
        assert!(self.len <= want.len(), "a value was output as more than there is");
        let mut i = 0;
        while i < want.len() {
            if i < self.len {
                assert!(self.at[i].0 == want[i].0, "a value was output as another kind");
                assert!(self.at[i].1 == want[i].1, "a value changed when it was output");
            }
            i += 1;
        }
    }

    /// The output was the same as in another trace.
    #[inline(always)]
    pub fn same<const M: usize>(&self, other: &Trace<M>) {
        assert!(self.len == other.len && self.calls == other.calls && self.failed == other.failed, "a value was output as a different number of things");
        let mut i = 0;
        while i < other.len {
            assert!(self.at[i].0 == other.at[i].0, "a value was output as another kind");
            assert!(self.at[i].1 == other.at[i].1, "a value changed when it was output");
            i += 1;
        }
    }
}

/// What a thing output stands for, whatever its width and wherever it's kept.
#[inline(always)]
pub fn class(e: Ev) -> Ev {
    match e {
        Ev::U8 | Ev::U16 | Ev::U32 | Ev::U64 => Ev::U128,
        Ev::I8 | Ev::I16 | Ev::I32 | Ev::I64 => Ev::I128,
        Ev::BorrowedText => Ev::Text,
        e => e,
    }
}

impl<const N: usize> Trace<N> {
    /// The output stands for the same as in another trace.
    #[inline(always)]
    pub fn alike<const M: usize>(&self, other: &Trace<M>) {
        assert!(self.len == other.len && self.failed == other.failed, "a value was output as a different number of things");
        let mut i = 0;
        while i < other.len {
            assert!(class(self.at[i].0) == class(other.at[i].0), "a value was output as another kind");
            assert!(self.at[i].1 == other.at[i].1, "a value changed when it was output");
            i += 1;
        }
    }
}

#[cfg(feature = "has-sval")]
mod stream {
    use super::*;
    use sval::{Index, Label, Result, Tag};

    #[inline(always)]
    fn ok(ok: bool) -> Result {
        if ok {
            Ok(())
        } else {
            sval::error()
        }
    }

    #[inline(always)]
    fn named(label: Option<&Label>) -> u128 {
        match label {
            Some(l) => str_bits(l.as_str()),
            None => 0,
        }
    }

    impl<'sval, const N: usize> sval::Stream<'sval> for Trace<N> {
        fn null(&mut self) -> Result {
            ok(self.push(Ev::Null, 0))
        }

        fn bool(&mut self, v: bool) -> Result {
            ok(self.push(Ev::Bool, v as u128))
        }

        fn text_begin(&mut self, _: Option<usize>) -> Result {
            ok(Trace::text_begin(self))
        }

        fn text_fragment(&mut self, v: &'sval str) -> Result {
            ok(self.fragment(v, true))
        }

        fn text_fragment_computed(&mut self, v: &str) -> Result {
            ok(self.fragment(v, false))
        }

        fn text_end(&mut self) -> Result {
            let ev = if self.borrowed { Ev::BorrowedText } else { Ev::Text };
            let bits = self.text;
            ok(self.push(ev, bits))
        }

        fn binary_begin(&mut self, _: Option<usize>) -> Result {
            ok(Trace::text_begin(self))
        }

        fn binary_fragment_computed(&mut self, v: &[u8]) -> Result {
            ok(self.fragment(unsafe { std::str::from_utf8_unchecked(v) }, false))
        }

        fn binary_end(&mut self) -> Result {
            let bits = self.text;
            ok(self.push(Ev::Bytes, bits))
        }

        fn u8(&mut self, v: u8) -> Result {
            ok(self.push(Ev::U8, v as u128))
        }

        fn u16(&mut self, v: u16) -> Result {
            ok(self.push(Ev::U16, v as u128))
        }

        fn u32(&mut self, v: u32) -> Result {
            ok(self.push(Ev::U32, v as u128))
        }

        fn u64(&mut self, v: u64) -> Result {
            ok(self.push(Ev::U64, v as u128))
        }

        fn u128(&mut self, v: u128) -> Result {
            ok(self.push(Ev::U128, v))
        }

        fn i8(&mut self, v: i8) -> Result {
            ok(self.push(Ev::I8, v as u128))
        }

        fn i16(&mut self, v: i16) -> Result {
            ok(self.push(Ev::I16, v as u128))
        }

        fn i32(&mut self, v: i32) -> Result {
            ok(self.push(Ev::I32, v as u128))
        }

        fn i64(&mut self, v: i64) -> Result {
            ok(self.push(Ev::I64, v as u128))
        }

        fn i128(&mut self, v: i128) -> Result {
            ok(self.push(Ev::I128, v as u128))
        }

        fn f32(&mut self, v: f32) -> Result {
            ok(self.push(Ev::F32, v.to_bits() as u128))
        }

        fn f64(&mut self, v: f64) -> Result {
            ok(self.push(Ev::F64, v.to_bits() as u128))
        }

        fn map_begin(&mut self, _: Option<usize>) -> Result {
            ok(self.push(Ev::Map, 0))
        }

        fn map_key_begin(&mut self) -> Result {
            ok(self.push(Ev::Key, 0))
        }

        fn map_key_end(&mut self) -> Result {
            ok(self.push(Ev::KeyEnd, 0))
        }

        fn map_value_begin(&mut self) -> Result {
            ok(self.push(Ev::Value, 0))
        }

        fn map_value_end(&mut self) -> Result {
            ok(self.push(Ev::ValueEnd, 0))
        }

        fn map_end(&mut self) -> Result {
            ok(self.push(Ev::MapEnd, 0))
        }

        fn seq_begin(&mut self, _: Option<usize>) -> Result {
            ok(self.push(Ev::Seq, 0))
        }

        fn seq_value_begin(&mut self) -> Result {
            ok(self.push(Ev::Item, 0))
        }

        fn seq_value_end(&mut self) -> Result {
            ok(self.push(Ev::ItemEnd, 0))
        }

        fn seq_end(&mut self) -> Result {
            ok(self.push(Ev::SeqEnd, 0))
        }

        fn enum_begin(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>) -> Result {
            ok(self.push(Ev::Enum, named(l)))
        }

        fn enum_end(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>) -> Result {
            ok(self.push(Ev::EnumEnd, named(l)))
        }

        fn tagged_begin(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>) -> Result {
            ok(self.push(Ev::Tagged, named(l)))
        }

        fn tagged_end(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>) -> Result {
            ok(self.push(Ev::TaggedEnd, named(l)))
        }

        fn tag(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>) -> Result {
            ok(self.push(Ev::Tag, named(l)))
        }

        fn record_begin(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>, _: Option<usize>) -> Result {
            ok(self.push(Ev::Record, named(l)))
        }

        fn record_value_begin(&mut self, _: Option<&Tag>, l: &Label) -> Result {
            ok(self.push(Ev::Field, named(Some(l))))
        }

        fn record_value_end(&mut self, _: Option<&Tag>, l: &Label) -> Result {
            ok(self.push(Ev::FieldEnd, named(Some(l))))
        }

        fn record_end(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>) -> Result {
            ok(self.push(Ev::RecordEnd, named(l)))
        }

        fn tuple_begin(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>, _: Option<usize>) -> Result {
            ok(self.push(Ev::Tuple, named(l)))
        }

        fn tuple_value_begin(&mut self, _: Option<&Tag>, _: &Index) -> Result {
            ok(self.push(Ev::TupleItem, 0))
        }

        fn tuple_value_end(&mut self, _: Option<&Tag>, _: &Index) -> Result {
            ok(self.push(Ev::TupleItemEnd, 0))
        }

        fn tuple_end(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>) -> Result {
            ok(self.push(Ev::TupleEnd, named(l)))
        }
    }
}

#[cfg(feature = "has-serde")]
pub use serialize::{Rec, RecError};

#[cfg(feature = "has-serde")]
mod serialize {
    use super::*;
    use serde_core::ser::*;
    use std::fmt;

    /// A serializer that records.
    pub struct Rec<'a, const N: usize>(pub &'a mut Trace<N>);

    /// A variant wide enough for rustc to lay enumerations of serializers out around it. Kani can't compile the
    /// 128-bit discriminants they would have otherwise.
    pub struct Wide<'a, const N: usize>(Rec<'a, N>, #[allow(dead_code)] [u64; 40]);

    impl<'a, const N: usize> Rec<'a, N> {
        #[inline(always)]
        pub fn new(t: &'a mut Trace<N>) -> Self {
            Rec(t)
        }
    }

    /// The error of a failing serializer.
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct RecError(pub u64);

    impl fmt::Display for RecError {
        fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
            Ok(())
        }
    }

    impl serde_core::ser::StdError for RecError {}

    impl Error for RecError {
        fn custom<T: fmt::Display>(_: T) -> Self {
            RecError(1)
        }
    }

    #[inline(always)]
    fn ok(ok: bool) -> Result<(), RecError> {
        if ok {
            Ok(())
        } else {
            Err(RecError(0))
        }
    }

    macro_rules! prim {
        ($($f:ident, $t:ty, $e:ident, |$v:ident| $b:expr;)*) => {$(
            fn $f(self, $v: $t) -> Result<Self::Ok, RecError> {
                ok(self.0.push(Ev::$e, $b))?;
                Ok(self.0.len)
            }
        )*};
    }

    impl<'a, const N: usize> Serializer for Rec<'a, N> {
        /// The number of things output in the end.
        type Ok = usize;
        type Error = RecError;
        type SerializeSeq = Self;
        type SerializeTuple = Self;
        type SerializeTupleStruct = Self;
        type SerializeTupleVariant = Self;
        type SerializeMap = Self;
        type SerializeStruct = Self;
        type SerializeStructVariant = Wide<'a, N>;

        prim! {
            serialize_bool, bool, Bool, |v| v as u128;
            serialize_u8, u8, U8, |v| v as u128;
            serialize_u16, u16, U16, |v| v as u128;
            serialize_u32, u32, U32, |v| v as u128;
            serialize_u64, u64, U64, |v| v as u128;
            serialize_u128, u128, U128, |v| v;
            serialize_i8, i8, I8, |v| v as u128;
            serialize_i16, i16, I16, |v| v as u128;
            serialize_i32, i32, I32, |v| v as u128;
            serialize_i64, i64, I64, |v| v as u128;
            serialize_i128, i128, I128, |v| v as u128;
            serialize_f32, f32, F32, |v| v.to_bits() as u128;
            serialize_f64, f64, F64, |v| v.to_bits() as u128;
            serialize_char, char, Char, |v| v as u128;
            serialize_str, &str, Text, |v| str_bits(v);
            serialize_bytes, &[u8], Bytes, |v| str_bits(unsafe { std::str::from_utf8_unchecked(v) });
            serialize_unit_struct, &'static str, Unit, |v| str_bits(v);
        }

        fn serialize_none(self) -> Result<Self::Ok, RecError> {
            ok(self.0.push(Ev::Null, 0))?;
            Ok(self.0.len)
        }

        fn serialize_unit(self) -> Result<Self::Ok, RecError> {
            ok(self.0.push(Ev::Unit, 0))?;
            Ok(self.0.len)
        }

        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Self::Ok, RecError> {
            ok(self.0.push(Ev::Some, 0))?;
            v.serialize(self)
        }

        fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Self::Ok, RecError> {
            ok(self.0.push(Ev::Variant, str_bits(v)))?;
            Ok(self.0.len)
        }

        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<Self::Ok, RecError> {
            ok(self.0.push(Ev::Newtype, str_bits(n)))?;
            v.serialize(self)
        }

        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Self::Ok, RecError> {
            ok(self.0.push(Ev::Enum, str_bits(n)))?;
            v.serialize(self)
        }

        fn serialize_seq(self, _: Option<usize>) -> Result<Self, RecError> {
            ok(self.0.push(Ev::Seq, 0))?;
            Ok(self)
        }

        fn serialize_tuple(self, _: usize) -> Result<Self, RecError> {
            ok(self.0.push(Ev::Tuple, 0))?;
            Ok(self)
        }

        fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Self, RecError> {
            ok(self.0.push(Ev::Tuple, str_bits(n)))?;
            Ok(self)
        }

        fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self, RecError> {
            ok(self.0.push(Ev::Variant, str_bits(n)))?;
            Ok(self)
        }

        fn serialize_map(self, _: Option<usize>) -> Result<Self, RecError> {
            ok(self.0.push(Ev::Map, 0))?;
            Ok(self)
        }

        fn serialize_struct(self, n: &'static str, _: usize) -> Result<Self, RecError> {
            ok(self.0.push(Ev::Record, str_bits(n)))?;
            Ok(self)
        }

        fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Wide<'a, N>, RecError> {
            ok(self.0.push(Ev::Variant, str_bits(n)))?;
            Ok(Wide(self, [0; 40]))
        }

        fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<Self::Ok, RecError> {
            struct Text<'a, const N: usize>(&'a mut Trace<N>);

            impl<'a, const N: usize> fmt::Write for Text<'a, N> {
                fn write_str(&mut self, s: &str) -> fmt::Result {
                    if self.0.fragment(s, false) {
                        Ok(())
                    } else {
                        Err(fmt::Error)
                    }
                }
            }

            ok(self.0.text_begin())?;
            let mut w = Text(self.0);
            let r = v.fmt(&mut fmt::Formatter::new(&mut w, fmt::FormattingOptions::new()));
            let t = w.0;
            ok(r.is_ok())?;
            let bits = t.text;
            ok(t.push(Ev::Text, bits))?;
            Ok(t.len)
        }
    }

    macro_rules! items {
        ($($tr:ident, $f:ident, $e:ident, $end:ident;)*) => {$(
            impl<'a, const N: usize> $tr for Rec<'a, N> {
                type Ok = usize;
                type Error = RecError;

                fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecError> {
                    ok(self.0.push(Ev::$e, 0))?;
                    v.serialize(Rec::new(&mut *self.0))?;
                    Ok(())
                }

                fn end(self) -> Result<usize, RecError> {
                    ok(self.0.push(Ev::$end, 0))?;
                    Ok(self.0.len)
                }
            }
        )*};
    }

    items! {
        SerializeSeq, serialize_element, Item, SeqEnd;
        SerializeTuple, serialize_element, TupleItem, TupleEnd;
        SerializeTupleStruct, serialize_field, TupleItem, TupleEnd;
        SerializeTupleVariant, serialize_field, TupleItem, TupleEnd;
    }

    macro_rules! fields {
        ($($tr:ident)*) => {$(
            impl<'a, const N: usize> $tr for Rec<'a, N> {
                type Ok = usize;
                type Error = RecError;

                fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), RecError> {
                    ok(self.0.push(Ev::Field, str_bits(n)))?;
                    v.serialize(Rec::new(&mut *self.0))?;
                    Ok(())
                }

                fn end(self) -> Result<usize, RecError> {
                    ok(self.0.push(Ev::RecordEnd, 0))?;
                    Ok(self.0.len)
                }
            }
        )*};
    }

    fields!(SerializeStruct);

    impl<'a, const N: usize> SerializeStructVariant for Wide<'a, N> {
        type Ok = usize;
        type Error = RecError;

        fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), RecError> {
            SerializeStruct::serialize_field(&mut self.0, n, v)
        }

        fn end(self) -> Result<usize, RecError> {
            SerializeStruct::end(self.0)
        }
    }

    impl<'a, const N: usize> SerializeMap for Rec<'a, N> {
        type Ok = usize;
        type Error = RecError;

        fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecError> {
            ok(self.0.push(Ev::Key, 0))?;
            v.serialize(Rec::new(&mut *self.0))?;
            Ok(())
        }

        fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecError> {
            ok(self.0.push(Ev::Value, 0))?;
            v.serialize(Rec::new(&mut *self.0))?;
            Ok(())
        }

        fn end(self) -> Result<usize, RecError> {
            ok(self.0.push(Ev::MapEnd, 0))?;
            Ok(self.0.len)
        }
    }
}

/// What a value streams as, failing at the given call.
#[cfg(feature = "has-sval")]
#[inline(always)]
pub fn streamed<'v, const N: usize>(v: &'v (impl sval::Value + ?Sized), fail_at: usize) -> Trace<N> {
    let mut t = Trace::<N>::failing(fail_at);
    let r = sval::stream(&mut t, v);
    assert!(r.is_ok() == !t.failed, "a stream's failure was lost");
    t
}

/// What a value serializes as, failing at the given call.
#[cfg(feature = "has-serde")]
#[inline(always)]
pub fn serialized<const N: usize>(v: &(impl serde_core::Serialize + ?Sized), fail_at: usize) -> Trace<N> {
    let mut t = Trace::<N>::failing(fail_at);
    let r = v.serialize(Rec::new(&mut t));
    match r {
        Ok(n) => assert!(!t.failed && n == t.len, "a serializer's result was lost"),
        Err(_) => assert!(t.failed, "serializing failed though the serializer didn't"),
    }
    t
}

/// A value with structure, with any contents, for a framework to see: each kind uses another part of the framework.
#[derive(Clone)]
pub struct Rich<const K: usize> {
    pub n: u8,
    pub text: crate::obs::Ascii<2>,
}

/// The kinds.
#[allow(non_snake_case, non_upper_case_globals)]
pub mod Form {
    pub const Numbers: usize = 0;
    pub const Wide: usize = 1;
    pub const Text: usize = 2;
    pub const Bytes: usize = 3;
    pub const Seq: usize = 4;
    pub const Map: usize = 5;
    pub const Record: usize = 6;
    pub const Tuple: usize = 7;
    pub const Variant: usize = 8;
    pub const VariantValue: usize = 9;
    pub const Present: usize = 10;
    pub const Missing: usize = 11;
    pub const Unit: usize = 12;
    pub const Nested: usize = 13;
}

impl<const K: usize> Rich<K> {
    #[inline(always)]
    pub fn any() -> Self {
        Rich { n: crate::nd::any(), text: crate::obs::Ascii::any() }
    }
}

#[cfg(feature = "has-sval")]
impl<const K: usize> sval::Value for Rich<K> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        use sval::{Index, Label};
        let n = self.n;
        match K {
            Form::Numbers => {
                s.seq_begin(Some(4))?;
                s.seq_value_begin()?;
                s.u8(n)?;
                s.seq_value_end()?;
                s.seq_value_begin()?;
                s.i16(n as i16 - 128)?;
                s.seq_value_end()?;
                s.seq_value_begin()?;
                s.u64(n as u64)?;
                s.seq_value_end()?;
                s.seq_value_begin()?;
                s.bool(n == 1)?;
                s.seq_value_end()?;
                s.seq_end()
            }
            Form::Wide => {
                s.seq_begin(None)?;
                s.seq_value_begin()?;
                s.u128(n as u128)?;
                s.seq_value_end()?;
                s.seq_value_begin()?;
                s.i128(n as i128 - 128)?;
                s.seq_value_end()?;
                s.seq_value_begin()?;
                s.f64(n as f64)?;
                s.seq_value_end()?;
                s.seq_end()
            }
            Form::Text => {
                s.text_begin(Some(4))?;
                s.text_fragment(self.text.get())?;
                s.text_fragment_computed("é")?;
                s.text_end()
            }
            Form::Bytes => {
                s.binary_begin(Some(1))?;
                s.binary_fragment(std::slice::from_ref(&self.n))?;
                s.binary_end()
            }
            Form::Seq => {
                s.seq_begin(Some(2))?;
                s.seq_value_begin()?;
                s.value(self.text.get())?;
                s.seq_value_end()?;
                s.seq_value_begin()?;
                s.null()?;
                s.seq_value_end()?;
                s.seq_end()
            }
            Form::Map => {
                s.map_begin(Some(1))?;
                s.map_key_begin()?;
                s.value(self.text.get())?;
                s.map_key_end()?;
                s.map_value_begin()?;
                s.u8(n)?;
                s.map_value_end()?;
                s.map_end()
            }
            Form::Record => {
                let l = Label::new("R");
                let f = Label::new("f");
                s.record_begin(None, Some(&l), None, Some(1))?;
                s.record_value_begin(None, &f)?;
                s.u8(n)?;
                s.record_value_end(None, &f)?;
                s.record_end(None, Some(&l), None)
            }
            Form::Tuple => {
                let l = Label::new("T");
                s.tuple_begin(None, Some(&l), None, Some(2))?;
                s.tuple_value_begin(None, &Index::new(0))?;
                s.u8(n)?;
                s.tuple_value_end(None, &Index::new(0))?;
                s.tuple_value_begin(None, &Index::new(1))?;
                s.value(self.text.get())?;
                s.tuple_value_end(None, &Index::new(1))?;
                s.tuple_end(None, Some(&l), None)
            }
            Form::Variant => {
                let l = Label::new("E");
                let v = Label::new("A");
                s.enum_begin(None, Some(&l), None)?;
                s.tag(None, Some(&v), Some(&Index::new(0)))?;
                s.enum_end(None, Some(&l), None)
            }
            Form::VariantValue => {
                let l = Label::new("E");
                let v = Label::new("B");
                s.enum_begin(None, Some(&l), None)?;
                s.tagged_begin(None, Some(&v), Some(&Index::new(1)))?;
                s.u8(n)?;
                s.tagged_end(None, Some(&v), Some(&Index::new(1)))?;
                s.enum_end(None, Some(&l), None)
            }
            Form::Present => sval::Value::stream(&SOME, s),
            Form::Missing => sval::Value::stream(&NONE, s),
            Form::Unit => s.null(),
            Form::Nested => {
                s.seq_begin(Some(2))?;
                s.seq_value_begin()?;
                s.seq_begin(Some(1))?;
                s.seq_value_begin()?;
                s.u8(n)?;
                s.seq_value_end()?;
                s.seq_end()?;
                s.seq_value_end()?;
                s.seq_value_begin()?;
                s.u8(n)?;
                s.seq_value_end()?;
                s.seq_end()
            }
            _ => s.null(),
        }
    }
}

const SOME: Option<u8> = Some(7);
const NONE: Option<u8> = None;

#[cfg(feature = "has-serde")]
impl<const K: usize> serde_core::Serialize for Rich<K> {
    fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde_core::ser::*;
        let n = self.n;
        match K {
            Form::Numbers => {
                let mut s = s.serialize_seq(Some(4))?;
                s.serialize_element(&n)?;
                s.serialize_element(&(n as i16 - 128))?;
                s.serialize_element(&(n as u64))?;
                s.serialize_element(&(n == 1))?;
                s.end()
            }
            Form::Wide => {
                let mut s = s.serialize_seq(None)?;
                s.serialize_element(&(n as u128))?;
                s.serialize_element(&(n as i128 - 128))?;
                s.serialize_element(&(n as f64))?;
                s.end()
            }
            Form::Text => s.serialize_str(self.text.get()),
            Form::Bytes => s.serialize_bytes(std::slice::from_ref(&self.n)),
            Form::Seq => {
                let mut s = s.serialize_seq(Some(2))?;
                s.serialize_element(self.text.get())?;
                s.serialize_element(&NONE)?;
                s.end()
            }
            Form::Map => {
                let mut s = s.serialize_map(Some(1))?;
                s.serialize_key(self.text.get())?;
                s.serialize_value(&n)?;
                s.end()
            }
            Form::Record => {
                let mut s = s.serialize_struct("R", 1)?;
                s.serialize_field("f", &n)?;
                s.end()
            }
            Form::Tuple => {
                let mut s = s.serialize_tuple_struct("T", 2)?;
                s.serialize_field(&n)?;
                s.serialize_field(self.text.get())?;
                s.end()
            }
            Form::Variant => s.serialize_unit_variant("E", 0, "A"),
            Form::VariantValue => s.serialize_newtype_variant("E", 1, "B", &n),
            Form::Present => s.serialize_some(&n),
            Form::Missing => s.serialize_none(),
            Form::Unit => s.serialize_unit(),
            Form::Nested => {
                let mut s = s.serialize_seq(Some(2))?;
                s.serialize_element(&[n])?;
                s.serialize_element(&n)?;
                s.end()
            }
            _ => s.serialize_unit(),
        }
    }
}

/// What a value streams as when nothing of it can be borrowed.
#[cfg(feature = "has-sval")]
#[inline(always)]
pub fn streamed_computed<const N: usize>(v: &(impl sval::Value + ?Sized)) -> Trace<N> {
    let mut t = Trace::<N>::new();
    let r = sval::stream_computed(&mut t, v);
    assert!(r.is_ok(), "a stream failed");
    t
}
