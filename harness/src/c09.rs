//! C09: buffered text is byte for byte the text that was produced.

use crate::nd::{any, assume};
use crate::obs::plain;
use std::fmt;
use value_bag::{OwnedValueBag, ValueBag};

/// Any ASCII text of a length up to 80.
#[derive(Clone, Copy)]
struct Long<const N: usize>([u128; 5]);

impl<const N: usize> Long<N> {
    #[inline(always)]
    fn any() -> Self {
        const ASCII: u128 = 0x7f7f_7f7f_7f7f_7f7f_7f7f_7f7f_7f7f_7f7f;
        let (a, b, c, d, e): (u128, u128, u128, u128, u128) = (any(), any(), any(), any(), any());
        Long([a & ASCII, b & ASCII, c & ASCII, d & ASCII, e & ASCII])
    }

    #[inline(always)]
    fn get(&self) -> &str {
        // SAFETY: it's ASCII, and `N` is at most 80.
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.0.as_ptr() as *const u8, N)) }
    }

    #[inline(always)]
    fn part(&self, from: usize, to: usize) -> &str {
        // SAFETY: it's ASCII, and the bounds are at most `N`.
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts((self.0.as_ptr() as *const u8).add(from), to - from)) }
    }
}

/// Text written in three pieces.
#[derive(Clone, Copy)]
struct Pieces<const N: usize, const P: usize, const Q: usize>(Long<N>);

impl<const N: usize, const P: usize, const Q: usize> fmt::Display for Pieces<N, P, Q> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0.part(0, P))?;
        f.write_str(self.0.part(P, Q))?;
        f.write_str(self.0.part(Q, N))
    }
}

impl<const N: usize, const P: usize, const Q: usize> fmt::Debug for Pieces<N, P, Q> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

/// What's written at one place, which may be any.
struct Watch {
    at: usize,
    byte: u8,
    len: usize,
}

impl fmt::Write for Watch {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.at >= self.len && self.at - self.len < s.len() {
            self.byte = s.as_bytes()[self.at - self.len];
        }
        self.len += s.len();
        Ok(())
    }
}

#[inline(always)]
fn holds<const N: usize>(w: Watch, want: &Long<N>) {
    assert!(w.len == N, "buffered text changed its length");
    if w.at < N {
        assert!(w.byte == want.get().as_bytes()[w.at], "buffered text changed its content");
    }
}

#[inline(always)]
fn displays<const N: usize>(v: &dyn fmt::Display, at: usize, want: &Long<N>) {
    let mut w = Watch { at, byte: 0, len: 0 };
    assert!(v.fmt(&mut fmt::Formatter::new(&mut w, plain())).is_ok());
    holds(w, want);
}

#[inline(always)]
fn debugs<const N: usize>(v: &dyn fmt::Debug, at: usize, want: &Long<N>) {
    let mut w = Watch { at, byte: 0, len: 0 };
    assert!(v.fmt(&mut fmt::Formatter::new(&mut w, plain())).is_ok());
    holds(w, want);
}

/// A place in text of length `N`.
#[inline(always)]
fn place<const N: usize>() -> usize {
    let at = any::<u8>() as usize;
    assume(at < N || N == 0);
    at
}

#[inline(always)]
fn text<const N: usize>(o: &OwnedValueBag, at: usize, want: &Long<N>) {
    displays(&o.by_ref(), at, want);
    let b = o.by_ref();
    let s = b.to_borrowed_str().unwrap();
    assert!(s.len() == N, "buffered text changed its length");
    if at < N {
        assert!(s.as_bytes()[at] == want.get().as_bytes()[at], "buffered text changed its content");
    }
}

/// A string of length `N`.
#[inline(always)]
fn string<const N: usize>() {
    let (want, at) = (Long::<N>::any(), place::<N>());
    let owned: OwnedValueBag;
    let shared: OwnedValueBag;
    {
        // The copies don't refer to it.
        let v = want;
        let b = ValueBag::from(v.get());
        owned = b.to_owned();
        shared = b.to_shared();
    }
    text(&owned, at, &want);
    text(&shared, at, &want);
    let clone = owned.clone();
    text(&clone, at, &want);
    let owned = owned.into_shared();
    text(&owned, at, &want);
    std::mem::forget(owned);
    std::mem::forget(shared);
    std::mem::forget(clone);
}

/// Text of length `N`, displayed or debugged in three pieces.
#[inline(always)]
fn formatted<const N: usize, const P: usize, const Q: usize>() {
    let (want, at) = (Long::<N>::any(), place::<N>());
    let owned: OwnedValueBag;
    let debug: OwnedValueBag;
    {
        let v = Pieces::<N, P, Q>(want);
        owned = ValueBag::from_display(&v).to_owned();
        debug = ValueBag::from_debug(&v).to_owned();
    }
    displays(&owned.by_ref(), at, &want);
    debugs(&debug.by_ref(), at, &want);
    let clone = owned.clone();
    displays(&clone, at, &want);
    std::mem::forget(owned);
    std::mem::forget(debug);
    std::mem::forget(clone);
}

harnesses! {
    /// Strings of any content around the capacity of inline strings.
    strings_22 [5] ("inl"; "own" "all") {
        string::<0>();
        string::<21>();
        string::<22>();
        string::<23>();
    }

    /// Strings of any content around the capacity of large inline strings.
    strings_46 [5] ("big"; "own" "all") {
        string::<1>();
        string::<45>();
        string::<46>();
        string::<47>();
    }

    /// Output of any content around the capacity of inline strings.
    formatted_22 [5] ("inl"; "own" "all") {
        formatted::<21, 10, 20>();
        formatted::<22, 10, 11>();
        formatted::<23, 1, 22>();
    }

    /// Output of any content around the capacity of large inline strings.
    formatted_46 [5] ("big"; "own" "all") {
        formatted::<45, 1, 44>();
        formatted::<46, 20, 20>();
        formatted::<47, 46, 46>();
    }

    /// Output of any content around the capacity of the stack buffer.
    formatted_64 [5] ("inl"; "big" "own" "all") {
        formatted::<63, 10, 62>();
        formatted::<64, 10, 63>();
        formatted::<65, 10, 64>();
    }

    /// Output of any content that spills over at different pieces.
    spilled [5] ("inl"; "big" "own" "all") {
        formatted::<70, 64, 65>();
        formatted::<70, 10, 65>();
    }

    /// Output of any content that spills over at its first piece.
    spilled_first [5] ("inl"; "big" "own" "all") {
        formatted::<70, 65, 68>();
    }

    /// Output of any content without inline storage.
    boxed [5] ("own"; "all") {
        formatted::<3, 1, 2>();
        formatted::<10, 4, 9>();
    }
}
