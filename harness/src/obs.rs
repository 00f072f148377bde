//! Observers: everything a consumer can find out about a bag through its public API.

use crate::nd::any;
use std::fmt;
use value_bag::{visit::Visit, Error, ValueBag};

/// A mathematical integer: its sign and its magnitude.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Int {
    pub neg: bool,
    pub mag: u128,
}

pub trait ToInt: Copy {
    fn int(self) -> Int;
}

macro_rules! to_int {
    (unsigned: $($u:ty)*, signed: $($i:ty)*) => {
        $(impl ToInt for $u {
            #[inline(always)]
            fn int(self) -> Int {
                Int { neg: false, mag: self as u128 }
            }
        })*
        $(impl ToInt for $i {
            #[inline(always)]
            fn int(self) -> Int {
                let neg = self < 0;
                Int { neg, mag: if neg { (!(self as i128)) as u128 + 1 } else { self as u128 } }
            }
        })*
    };
}

to_int!(unsigned: u8 u16 u32 u64 u128 usize, signed: i8 i16 i32 i64 i128 isize);

impl Int {
    /// Whether the integer fits in `bits` bits, two's complement if `signed`.
    #[inline(always)]
    pub fn fits(self, signed: bool, bits: u32) -> bool {
        let max = if signed { (1u128 << (bits - 1)) - 1 } else if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        if self.neg {
            signed && self.mag <= max + 1
        } else {
            self.mag <= max
        }
    }
}

/// `got` is exactly `want`, if `want` fits, and nothing otherwise.
#[inline(always)]
pub fn same_int<T: ToInt>(got: Option<T>, want: Int, signed: bool, bits: u32) {
    match got {
        Some(v) => {
            assert!(want.fits(signed, bits), "an integer that doesn't fit was converted");
            assert!(v.int() == want, "an integer changed in a conversion");
        }
        None => assert!(!want.fits(signed, bits), "an integer that fits wasn't converted"),
    }
}

/// The four integer conversions of a bag holding the integer `want`.
#[inline(always)]
pub fn int_casts(b: &ValueBag, want: Int) {
    same_int(b.to_u64(), want, false, 64);
    same_int(b.to_i64(), want, true, 64);
    same_int(b.to_u128(), want, false, 128);
    same_int(b.to_i128(), want, true, 128);
}

/// The two conversions that between them show everything about the integer in a bag.
#[inline(always)]
pub fn int_wide(b: &ValueBag, want: Int) {
    same_int(b.to_u128(), want, false, 128);
    same_int(b.to_i128(), want, true, 128);
}

/// Take the value out of a result. The error isn't dropped: that would have the solver consider
/// every type of error there is.
#[inline(always)]
pub fn ok<T>(r: Result<T, Error>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}

/// The conversions to every integer type of a bag holding the integer `want`.
#[inline(always)]
pub fn int_try_from(b: &ValueBag, want: Int) {
    same_int(ok(u8::try_from(b.clone())), want, false, 8);
    same_int(ok(u16::try_from(b.clone())), want, false, 16);
    same_int(ok(u32::try_from(b.clone())), want, false, 32);
    same_int(ok(u64::try_from(b.clone())), want, false, 64);
    same_int(ok(u128::try_from(b.clone())), want, false, 128);
    same_int(ok(usize::try_from(b.clone())), want, false, 64);
    same_int(ok(i8::try_from(b.clone())), want, true, 8);
    same_int(ok(i16::try_from(b.clone())), want, true, 16);
    same_int(ok(i32::try_from(b.clone())), want, true, 32);
    same_int(ok(i64::try_from(b.clone())), want, true, 64);
    same_int(ok(i128::try_from(b.clone())), want, true, 128);
    same_int(ok(isize::try_from(b.clone())), want, true, 64);
}

/// Nothing but integers and floats come out of a bag holding a number.
#[inline(always)]
pub fn not_text(b: &ValueBag) {
    assert!(b.to_bool().is_none(), "a value that isn't a boolean was converted to one");
    assert!(b.to_char().is_none(), "a value that isn't a character was converted to one");
    assert!(b.to_borrowed_str().is_none(), "a value that isn't text was converted to it");
    #[cfg(feature = "has-alloc")]
    assert!(b.to_str().is_none(), "a value that isn't text was converted to it");
}

/// No number comes out of a bag that holds none.
#[inline(always)]
pub fn not_number(b: &ValueBag) {
    assert!(b.to_u64().is_none(), "a value that isn't an integer was converted to one");
    assert!(b.to_i64().is_none(), "a value that isn't an integer was converted to one");
    assert!(b.to_u128().is_none(), "a value that isn't an integer was converted to one");
    assert!(b.to_i128().is_none(), "a value that isn't an integer was converted to one");
    assert!(b.to_f64().is_none(), "a value that isn't a number was converted to one");
    assert!(b.as_f64().is_nan(), "a value that isn't a number was converted to one");
}

/// The integer conversions of a bag that holds no integer.
#[inline(always)]
pub fn not_integer(b: &ValueBag) {
    assert!(b.to_u64().is_none(), "a value that isn't an integer was converted to one");
    assert!(b.to_i64().is_none(), "a value that isn't an integer was converted to one");
    assert!(b.to_u128().is_none(), "a value that isn't an integer was converted to one");
    assert!(b.to_i128().is_none(), "a value that isn't an integer was converted to one");
}

/// Two floats are the same. A NaN is only compared by its bits if it was never converted.
#[inline(always)]
pub fn same_f64(got: f64, want: f64) {
    assert!(
        got.to_bits() == want.to_bits() || (got.is_nan() && want.is_nan()),
        "a floating point number changed in a conversion"
    );
}

/// A bag holds the float `want`.
#[inline(always)]
pub fn float_casts(b: &ValueBag, want: f64) {
    match b.to_f64() {
        Some(v) => same_f64(v, want),
        None => panic!("a floating point number wasn't converted"),
    }
    same_f64(b.as_f64(), want);
}

/// A bag holds the boolean `want` and nothing else.
#[inline(always)]
pub fn bool_casts(b: &ValueBag, want: bool) {
    assert!(b.to_bool() == Some(want), "a boolean changed in a conversion");
    assert!(b.to_char().is_none(), "a boolean was converted to a character");
    not_str(b);
    not_number(b);
}

/// A bag holds the character `want` and nothing else.
#[inline(always)]
pub fn char_casts(b: &ValueBag, want: char) {
    assert!(b.to_char() == Some(want), "a character changed in a conversion");
    assert!(b.to_bool().is_none(), "a character was converted to a boolean");
    not_str(b);
    not_number(b);
}

/// No text comes out of a bag that holds none.
#[inline(always)]
pub fn not_str(b: &ValueBag) {
    assert!(b.to_borrowed_str().is_none(), "a value that isn't text was converted to it");
    #[cfg(feature = "has-alloc")]
    assert!(b.to_str().is_none(), "a value that isn't text was converted to it");
}

/// Nothing comes out of a bag that holds no primitive.
#[inline(always)]
pub fn nothing(b: &ValueBag) {
    assert!(b.to_bool().is_none(), "a value that isn't a boolean was converted to one");
    assert!(b.to_char().is_none(), "a value that isn't a character was converted to one");
    not_str(b);
    not_number(b);
}

/// Two strings have the same bytes.
#[inline(always)]
pub fn same_str(got: &str, want: &str) {
    let (got, want) = (got.as_bytes(), want.as_bytes());
    assert!(got.len() == want.len(), "text changed its length");
    let mut i = 0;
    while i < want.len() {
        assert!(got[i] == want[i], "text changed its content");
        i += 1;
    }
}

/// A bag holds the text `want` and nothing else.
#[inline(always)]
pub fn text_casts(b: &ValueBag, want: &str) {
    if let Some(v) = b.to_borrowed_str() {
        same_str(v, want);
    }
    #[cfg(feature = "has-alloc")]
    match b.to_str() {
        Some(v) => same_str(&v, want),
        None => panic!("text wasn't converted"),
    }
    #[cfg(not(feature = "has-alloc"))]
    assert!(b.to_borrowed_str().is_some(), "text wasn't converted");
    assert!(b.to_bool().is_none(), "text was converted to a boolean");
    assert!(b.to_char().is_none(), "text was converted to a character");
    not_number(b);
}

/// A string of `N` ASCII characters. There's always something to point at, even if there are none.
#[repr(C)]
#[derive(Clone)]
pub struct Ascii<const N: usize>([u8; N], u8);

impl<const N: usize> Ascii<N> {
    #[inline(always)]
    pub fn any() -> Self {
        let b: [u8; N] = any();
        let mut i = 0;
        while i < N {
            crate::nd::assume(b[i] < 0x80);
            i += 1;
        }
        Ascii(b, 0)
    }

    #[inline(always)]
    pub fn get(&self) -> &str {
        // SAFETY: ASCII is UTF-8.
        unsafe { std::str::from_utf8_unchecked(&self.0) }
    }

    /// The same, for interfaces that insist.
    #[inline(always)]
    pub fn get_static(&self) -> &'static str {
        // SAFETY: no bag outlives the harness's own locals.
        unsafe { std::mem::transmute::<&str, &'static str>(self.get()) }
    }
}

/// A bag holds the boolean `want`. All conversions start out the same, so these stand for the rest by indirect routes.
#[inline(always)]
pub fn bool_light(b: &ValueBag, want: bool) {
    assert!(b.to_bool() == Some(want), "a boolean changed in a conversion");
    assert!(b.to_u64().is_none(), "a boolean was converted to an integer");
    not_str(b);
}

/// A bag holds the character `want`.
#[inline(always)]
pub fn char_light(b: &ValueBag, want: char) {
    assert!(b.to_char() == Some(want), "a character changed in a conversion");
    assert!(b.to_u64().is_none(), "a character was converted to an integer");
    not_str(b);
}

/// A bag holds the text `want`.
#[inline(always)]
pub fn text_light(b: &ValueBag, want: &str) {
    #[cfg(feature = "has-alloc")]
    match b.to_str() {
        Some(v) => same_str(&v, want),
        None => panic!("text wasn't converted"),
    }
    #[cfg(not(feature = "has-alloc"))]
    match b.to_borrowed_str() {
        Some(v) => same_str(v, want),
        None => panic!("text wasn't converted"),
    }
    assert!(b.to_char().is_none(), "text was converted to a character");
}

/// What a visitor was called with.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Nothing,
    Any,
    Empty,
    U64,
    I64,
    U128,
    I128,
    F64,
    Bool,
    Char,
    Str,
    BorrowedStr,
    Error,
    BorrowedError,
}

/// A visitor that records its calls, and fails them if told to.
pub struct Log {
    pub calls: u8,
    pub kind: Kind,
    pub bits: u128,
    pub ptr: *const u8,
    pub len: usize,
    pub fail: bool,
}

/// The message of the error a visitor fails with.
pub const MINE: &str = "V";

impl Log {
    #[inline(always)]
    pub fn new() -> Log {
        Log { calls: 0, kind: Kind::Nothing, bits: 0, ptr: std::ptr::null(), len: 0, fail: false }
    }

    #[inline(always)]
    pub fn failing(fail: bool) -> Log {
        Log { fail, ..Log::new() }
    }

    #[inline(always)]
    fn call(&mut self, kind: Kind, bits: u128) -> Result<(), Error> {
        self.calls = self.calls.saturating_add(1);
        self.kind = kind;
        self.bits = bits;
        if self.fail {
            Err(Error::msg(MINE))
        } else {
            Ok(())
        }
    }

    #[inline(always)]
    fn call_str(&mut self, kind: Kind, v: &str) -> Result<(), Error> {
        self.ptr = v.as_ptr();
        self.len = v.len();
        // Text that isn't borrowed may be gone when the visit returns.
        let b = v.as_bytes();
        let mut bits = 0;
        let mut i = 0;
        while i < b.len() {
            bits = (bits << 8) | b[i] as u128;
            i += 1;
        }
        self.call(kind, bits)
    }
}

/// The bytes of a short string, as `Log::bits` has them.
#[inline(always)]
pub fn str_bits(s: &str) -> u128 {
    let b = s.as_bytes();
    let mut bits = 0;
    let mut i = 0;
    while i < b.len() {
        bits = (bits << 8) | b[i] as u128;
        i += 1;
    }
    bits
}

impl<'v> Visit<'v> for Log {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.call(Kind::Any, 0)
    }

    fn visit_empty(&mut self) -> Result<(), Error> {
        self.call(Kind::Empty, 0)
    }

    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        self.call(Kind::U64, v as u128)
    }

    fn visit_i64(&mut self, v: i64) -> Result<(), Error> {
        self.call(Kind::I64, v as i128 as u128)
    }

    fn visit_u128(&mut self, v: u128) -> Result<(), Error> {
        self.call(Kind::U128, v)
    }

    fn visit_i128(&mut self, v: i128) -> Result<(), Error> {
        self.call(Kind::I128, v as u128)
    }

    fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
        self.call(Kind::F64, v.to_bits() as u128)
    }

    fn visit_bool(&mut self, v: bool) -> Result<(), Error> {
        self.call(Kind::Bool, v as u128)
    }

    fn visit_char(&mut self, v: char) -> Result<(), Error> {
        self.call(Kind::Char, v as u128)
    }

    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.call_str(Kind::Str, v)
    }

    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
        self.call_str(Kind::BorrowedStr, v)
    }

    #[cfg(feature = "has-std")]
    fn visit_error(&mut self, v: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.ptr = v as *const dyn std::error::Error as *const u8;
        self.call(Kind::Error, 0)
    }

    #[cfg(feature = "has-std")]
    fn visit_borrowed_error(&mut self, v: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.ptr = v as *const dyn std::error::Error as *const u8;
        self.call(Kind::BorrowedError, 0)
    }
}

/// What a visit of a bag is.
#[inline(always)]
pub fn visited(b: &ValueBag) -> Log {
    let mut log = Log::new();
    let r = ok(b.visit(&mut log));
    assert!(r.is_some(), "a visit failed though the visitor didn't");
    assert!(log.calls == 1, "a visit didn't make exactly one call");
    log
}

/// A visit of a bag calls for `kind` with the value `bits`.
#[inline(always)]
pub fn visits(b: &ValueBag, kind: Kind, bits: u128) {
    let log = visited(b);
    assert!(log.kind == kind, "a value was visited as another kind");
    assert!(log.bits == bits, "a value changed when it was visited");
}

/// Somewhere to write text, that can fail.
///
/// The solver has room for `N` bytes. A replay formats for real and has as much as it takes.
pub struct Sink<const N: usize> {
    #[cfg(kani)]
    pub buf: [u8; N],
    #[cfg(not(kani))]
    pub buf: Vec<u8>,
    pub len: usize,
    pub writes: usize,
    /// The number of writes that are accepted.
    pub accept: usize,
}

impl<const N: usize> Sink<N> {
    #[inline(always)]
    pub fn new() -> Self {
        Sink {
            #[cfg(kani)]
            buf: [0; N],
            #[cfg(not(kani))]
            buf: Vec::new(),
            len: 0,
            writes: 0,
            accept: usize::MAX,
        }
    }
}

impl<const N: usize> fmt::Write for Sink<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.writes >= self.accept {
            return Err(fmt::Error);
        }
        self.writes += 1;
        let b = s.as_bytes();
        #[cfg(not(kani))]
        self.buf.extend_from_slice(b);
        #[cfg(kani)]
        {
            assert!(b.len() <= N - self.len, "more text was written than there is");
            let mut i = 0;
            while i < N && i < b.len() {
                self.buf[self.len + i] = b[i];
                i += 1;
            }
        }
        self.len += b.len();
        Ok(())
    }
}

impl<const N: usize> Sink<N> {
    /// The text written so far is `want`.
    #[inline(always)]
    pub fn holds(&self, want: &str) {
        let want = want.as_bytes();
        assert!(self.len == want.len(), "formatted text changed its length");
        let mut i = 0;
        while i < want.len() {
            assert!(self.buf[i] == want[i], "formatted text changed its content");
            i += 1;
        }
    }
}

/// The text a bag debugs as.
#[inline(always)]
pub fn debugged<const N: usize>(v: &dyn fmt::Debug, o: fmt::FormattingOptions) -> Sink<N> {
    let mut sink = Sink::new();
    let r = v.fmt(&mut fmt::Formatter::new(&mut sink, o));
    assert!(r.is_ok(), "formatting failed");
    sink
}

/// The text a bag displays as.
#[inline(always)]
pub fn displayed<const N: usize>(v: &dyn fmt::Display, o: fmt::FormattingOptions) -> Sink<N> {
    let mut sink = Sink::new();
    let r = v.fmt(&mut fmt::Formatter::new(&mut sink, o));
    assert!(r.is_ok(), "formatting failed");
    sink
}

/// Everything there is to formatting flags.
#[inline(always)]
pub fn options(o: fmt::FormattingOptions) -> [u8; 8] {
    // SAFETY: it's made of plain integers.
    unsafe { std::mem::transmute(o) }
}

/// Any formatting flags.
#[inline(always)]
pub fn flags() -> fmt::FormattingOptions {
    let mut o = fmt::FormattingOptions::new();
    let (b, c): ([bool; 4], [u8; 3]) = ([any(), any(), any(), any()], [any(), any(), any()]);
    o.alternate(b[0]);
    o.sign_aware_zero_pad(b[1]);
    o.sign(match c[0] {
        0 => Some(fmt::Sign::Plus),
        1 => Some(fmt::Sign::Minus),
        _ => None,
    });
    o.debug_as_hex(match c[1] {
        0 => Some(fmt::DebugAsHex::Lower),
        1 => Some(fmt::DebugAsHex::Upper),
        _ => None,
    });
    o.align(match c[2] {
        0 => Some(fmt::Alignment::Left),
        1 => Some(fmt::Alignment::Right),
        2 => Some(fmt::Alignment::Center),
        _ => None,
    });
    o.fill(any());
    // Enough to tell them apart, and little enough to replay.
    let (w, p): (u8, u8) = (any(), any());
    o.width(if b[2] { Some(w as u16) } else { None });
    o.precision(if b[3] { Some(p as u16) } else { None });
    o
}

/// No formatting flags.
#[inline(always)]
pub fn plain() -> fmt::FormattingOptions {
    fmt::FormattingOptions::new()
}

/// An object that formats, streams and serializes as an ASCII character that isn't special in any format, preceded by
/// a letter for the style.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Obj(pub u8);

/// Another type, just like it.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Twin(pub u8);

impl Obj {
    #[inline(always)]
    pub fn any() -> Obj {
        let c: u8 = any();
        crate::nd::assume(c >= b'a' && c <= b'z');
        Obj(c)
    }
}

macro_rules! obj {
    ($t:ident) => {
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let b = [b'?', self.0];
                // SAFETY: it's ASCII.
                f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
            }
        }

        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let b = [b'!', self.0];
                // SAFETY: it's ASCII.
                f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
            }
        }

        #[cfg(feature = "has-std")]
        impl std::error::Error for $t {}

        #[cfg(feature = "has-sval")]
        impl sval::Value for $t {
            fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                s.u64(self.0 as u64)
            }
        }

        #[cfg(feature = "has-serde")]
        impl serde_core::Serialize for $t {
            fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u64(self.0 as u64)
            }
        }
    };
}

obj!(Obj);
obj!(Twin);

/// A collection of up to `N` items.
pub struct Items<T, const N: usize> {
    pub at: [Option<T>; N],
    pub len: usize,
}

impl<T: Copy, const N: usize> Default for Items<T, N> {
    fn default() -> Self {
        Items { at: [None; N], len: 0 }
    }
}

impl<T, const N: usize> Extend<Option<T>> for Items<T, N> {
    fn extend<I: IntoIterator<Item = Option<T>>>(&mut self, iter: I) {
        for i in iter {
            assert!(self.len < N, "more items were extracted than there are");
            self.at[self.len] = i;
            self.len += 1;
        }
    }
}

/// Two texts are the same.
#[inline(always)]
pub fn same_text<const N: usize>(got: &Sink<N>, want: &Sink<N>) {
    assert!(got.len == want.len, "formatted text changed its length");
    let mut i = 0;
    while i < want.len && (cfg!(not(kani)) || i < N) {
        assert!(got.buf[i] == want.buf[i], "formatted text changed its content");
        i += 1;
    }
}

/// An object that formats as its style, its content and the flags it's formatted with, in three writes.
#[derive(Clone, Copy)]
pub struct Probe(pub u8);

impl Probe {
    #[inline(always)]
    fn write(&self, f: &mut fmt::Formatter, style: u8) -> fmt::Result {
        let o = options(f.options());
        // SAFETY: only the harness's own sink gets to see it.
        unsafe {
            f.write_str(std::str::from_utf8_unchecked(&[style]))?;
            f.write_str(std::str::from_utf8_unchecked(&[self.0]))?;
            f.write_str(std::str::from_utf8_unchecked(&o))
        }
    }
}

impl fmt::Debug for Probe {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(f, b'?')
    }
}

impl fmt::Display for Probe {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(f, b'!')
    }
}

#[cfg(feature = "has-std")]
impl std::error::Error for Probe {}

/// Everything a bag says about itself without a framework.
pub struct View<const N: usize> {
    /// Whether a visit succeeds.
    pub ok: bool,
    pub log: Log,
    pub empty: bool,
    /// The object it downcasts to.
    pub object: *const Obj,
    /// The text borrowed.
    pub text: *const u8,
    /// The error borrowed.
    pub error: *const u8,
    pub debug: Sink<N>,
    pub display: Sink<N>,
}

#[inline(always)]
pub fn view<const N: usize>(b: &ValueBag, o: fmt::FormattingOptions) -> View<N> {
    let mut log = Log::new();
    let ok = ok(b.visit(&mut log)).is_some();
    View {
        ok,
        log,
        empty: b.is_empty(),
        object: match b.downcast_ref::<Obj>() {
            Some(v) => v,
            None => std::ptr::null(),
        },
        text: match b.to_borrowed_str() {
            Some(v) => v.as_ptr(),
            None => std::ptr::null(),
        },
        #[cfg(feature = "has-std")]
        error: match b.to_borrowed_error() {
            Some(v) => v as *const _ as *const u8,
            None => std::ptr::null(),
        },
        #[cfg(not(feature = "has-std"))]
        error: std::ptr::null(),
        debug: debugged(b, o),
        display: displayed(b, o),
    }
}

/// Two bags say the same about themselves.
#[inline(always)]
pub fn same_view<const N: usize>(got: &View<N>, want: &View<N>) {
    assert!(got.ok == want.ok, "a visit has another result");
    assert!(got.log.calls == want.log.calls, "a visit makes another number of calls");
    assert!(got.log.kind == want.log.kind, "a value was visited as another kind");
    assert!(got.log.bits == want.log.bits, "a value changed when it was visited");
    assert!(got.log.ptr == want.log.ptr, "a visit saw another object");
    assert!(got.empty == want.empty, "a bag is empty or not");
    assert!(got.object == want.object, "a downcast yields another object");
    assert!(got.text == want.text, "other text is borrowed");
    assert!(got.error == want.error, "another error is borrowed");
    same_text(&got.debug, &want.debug);
    same_text(&got.display, &want.display);
}

impl<'v> From<&'v Obj> for ValueBag<'v> {
    fn from(v: &'v Obj) -> Self {
        ValueBag::from_debug(v)
    }
}

/// A kind of value, whatever its width and wherever it's kept.
#[inline(always)]
pub fn class(k: Kind) -> Kind {
    match k {
        Kind::U64 => Kind::U128,
        Kind::I64 => Kind::I128,
        Kind::BorrowedStr => Kind::Str,
        Kind::BorrowedError => Kind::Error,
        k => k,
    }
}

/// A copy of a bag says the same about itself as the original.
#[inline(always)]
pub fn same_copy<const N: usize>(got: &View<N>, want: &View<N>) {
    assert!(got.ok == want.ok, "a visit has another result");
    assert!(got.log.calls == want.log.calls, "a visit makes another number of calls");
    assert!(class(got.log.kind) == class(want.log.kind), "a value was visited as another kind");
    assert!(got.log.bits == want.log.bits, "a value changed when it was visited");
    assert!(got.empty == want.empty, "a bag is empty or not");
    same_text(&got.debug, &want.debug);
    same_text(&got.display, &want.display);
}
