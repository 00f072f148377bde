//! C17: errors keep their identity, message and chain of causes.

use crate::nd::any;
use crate::obs::*;
use std::{error, fmt};
use value_bag::{visit::Visit, Error, OwnedValueBag, ValueBag};

/// An error with a cause.
#[derive(Clone, Copy)]
struct Caused<E>(u8, E);

impl<E> fmt::Debug for Caused<E> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&Obj(self.0), f)
    }
}

impl<E> fmt::Display for Caused<E> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&Obj(self.0), f)
    }
}

impl<E: error::Error + 'static> error::Error for Caused<E> {
    fn source(&self) -> Option<&(dyn error::Error + 'static)> {
        Some(&self.1)
    }
}

fn at(e: &(dyn error::Error + 'static)) -> *const u8 {
    e as *const dyn error::Error as *const u8
}

/// An error's message is that of an object.
#[inline(always)]
fn message(e: &(dyn error::Error + 'static), want: u8) {
    let t = [b'!', want];
    // SAFETY: it's ASCII.
    displayed::<2>(&e, plain()).holds(unsafe { std::str::from_utf8_unchecked(&t) });
}

/// A bag holds the very error.
#[inline(always)]
fn held(b: &ValueBag, want: *const u8, text: u8) {
    let e = b.to_borrowed_error().expect("an error was lost");
    assert!(at(e) == want, "another error is borrowed");
    let log = visited(b);
    assert!(log.kind == Kind::BorrowedError && log.calls == 1, "an error was visited as something else");
    assert!(log.ptr == want, "another error was visited");
    formats(b, text);
    nothing(b);
    assert!(!b.is_empty(), "an error is empty");
}

#[inline(always)]
fn formats(b: &ValueBag, text: u8) {
    let t = [b'!', text];
    // SAFETY: it's ASCII.
    displayed::<2>(b, plain()).holds(unsafe { std::str::from_utf8_unchecked(&t) });
}

/// Checks of the error that's visited.
struct Chain<F>(F, usize);

impl<'v, F: FnMut(&(dyn error::Error + 'static))> Visit<'v> for Chain<F> {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        panic!("an error was visited as something else")
    }

    fn visit_error(&mut self, e: &(dyn error::Error + 'static)) -> Result<(), Error> {
        self.1 += 1;
        (self.0)(e);
        Ok(())
    }

    fn visit_borrowed_error(&mut self, e: &'v (dyn error::Error + 'static)) -> Result<(), Error> {
        self.visit_error(e)
    }
}

/// The error in a bag has these messages, down to its last cause.
macro_rules! chain {
    ($b:expr, $($m:expr),*) => {{
        let mut c = Chain(|e: &(dyn error::Error + 'static)| {
            let mut at = Some(e);
            $(
                let e = at.expect("a cause was lost");
                message(e, $m);
                at = e.source();
            )*
            assert!(at.is_none(), "there's another cause");
        }, 0);
        assert!(ok($b.visit(&mut c)).is_some(), "an error failed to be visited");
        assert!(c.1 == 1, "an error was visited more than once");
    }};
}

harnesses! {
    /// Any error, captured.
    captured [5] ("own"; "inl" "big" "all") {
        let v = Obj::any();
        let p = &v as *const Obj as *const u8;
        let b = ValueBag::capture_error(&v);
        held(&b, p, v.0);
        held(&b.by_ref(), p, v.0);
        held(&b.clone(), p, v.0);
        assert!(b.downcast_ref::<Obj>().map(|v| v as *const Obj as *const u8) == Some(p), "a downcast yields another object");
    }

    /// Any error, borrowed as a trait object.
    borrowed [5] ("own"; "inl" "big" "all") {
        let v = Obj::any();
        let p = &v as *const Obj as *const u8;
        let b = ValueBag::from_dyn_error(&v);
        held(&b, p, v.0);
        held(&b.by_ref(), p, v.0);
    }

    /// Any error, converted to a bag.
    converted [5] ("own"; "inl" "big" "all") {
        let v = Obj::any();
        let p = &v as *const Obj as *const u8;
        let d: &(dyn error::Error + 'static) = &v;
        held(&ValueBag::from(d), p, v.0);
        held(&ValueBag::from(&d), p, v.0);
    }

    /// Any error, converted from a bag.
    extracted [5] ("own"; "inl" "big" "all") {
        let v = Obj::any();
        let p = &v as *const Obj as *const u8;
        match <&(dyn error::Error + 'static)>::try_from(ValueBag::from_dyn_error(&v)) {
            Ok(e) => assert!(at(e) == p, "another error is borrowed"),
            Err(e) => {
                std::mem::forget(e);
                panic!("an error was lost")
            }
        }
    }

    /// Any error with causes, borrowed.
    causes [5] ("own"; "inl" "big" "all") {
        let v = Caused(any::<u8>() & 0x7f, Caused(any::<u8>() & 0x7f, Obj::any()));
        chain!(ValueBag::capture_error(&v), v.0, v.1.0, v.1.1.0);
        chain!(ValueBag::from_dyn_error(&v), v.0, v.1.0, v.1.1.0);
    }

    /// What isn't an error.
    others [5] ("own"; "inl" "big" "all") {
        let v = Obj::any();
        assert!(ValueBag::capture_display(&v).to_borrowed_error().is_none(), "something else is an error");
        assert!(ValueBag::from_debug(&v).to_borrowed_error().is_none(), "something else is an error");
        assert!(ValueBag::from(any::<u64>()).to_borrowed_error().is_none(), "something else is an error");
        assert!(ValueBag::empty().to_borrowed_error().is_none(), "something else is an error");
        let s = Ascii::<2>::any();
        assert!(ValueBag::from(s.get()).to_borrowed_error().is_none(), "something else is an error");
    }

    /// Any error, captured as shared.
    shared [5] ("own"; "inl" "big" "all") {
        let v = Caused(any::<u8>() & 0x7f, Obj::any());
        let b = ValueBag::capture_shared_error(v);
        chain!(b, v.0, v.1.0);
        chain!(b.by_ref(), v.0, v.1.0);
        formats(&b, v.0);
        nothing(&b);
        let c = b.clone();
        chain!(c, v.0, v.1.0);
        std::mem::forget(b);
        std::mem::forget(c);
    }

    /// An owned copy of any error.
    owned [5] ("own"; "inl" "big" "all") {
        let want;
        let owned: OwnedValueBag;
        {
            let v = Obj::any();
            want = v.0;
            owned = ValueBag::capture_error(&v).to_owned();
        }
        chain!(owned.by_ref(), want);
        formats(&owned.by_ref(), want);
        assert!(owned.by_ref().to_borrowed_error().is_some(), "an error was lost");
        std::mem::forget(owned);
    }

    /// An owned copy of any error with a cause.
    owned_cause [5] ("own"; "inl" "big" "all") {
        let want;
        let owned: OwnedValueBag;
        {
            let v = Caused(any::<u8>() & 0x7f, Obj::any());
            want = (v.0, v.1.0);
            owned = ValueBag::from_dyn_error(&v).to_owned();
        }
        chain!(owned.by_ref(), want.0, want.1);
        std::mem::forget(owned);
    }

    /// An owned copy of any error with a cause that has one.
    owned_causes [5] ("own"; "inl" "big" "all") {
        let want;
        let owned: OwnedValueBag;
        {
            let v = Caused(any::<u8>() & 0x7f, Caused(any::<u8>() & 0x7f, Obj::any()));
            want = (v.0, v.1.0, v.1.1.0);
            owned = ValueBag::capture_error(&v).to_owned();
        }
        chain!(owned.by_ref(), want.0, want.1, want.2);
        std::mem::forget(owned);
    }

    /// A clone of an owned copy of any error with a cause.
    owned_clone [5] ("own"; "inl" "big" "all") {
        let v = Caused(any::<u8>() & 0x7f, Obj::any());
        let owned = ValueBag::capture_error(&v).to_owned();
        let clone = owned.clone();
        chain!(clone.by_ref(), v.0, v.1.0);
        std::mem::forget(owned);
        std::mem::forget(clone);
    }

    /// A shared form of an owned copy of any error with a cause.
    owned_shared [5] ("own"; "inl" "big" "all") {
        let v = Caused(any::<u8>() & 0x7f, Obj::any());
        let shared = ValueBag::capture_error(&v).to_shared();
        chain!(shared.by_ref(), v.0, v.1.0);
        let clone = shared.clone();
        chain!(clone.by_ref(), v.0, v.1.0);
        std::mem::forget(shared);
        std::mem::forget(clone);
    }

    /// An owned copy of any error that's shared already.
    shared_owned [5] ("own"; "inl" "big" "all") {
        let v = Caused(any::<u8>() & 0x7f, Obj::any());
        let b = ValueBag::capture_shared_error(v);
        let owned = b.to_owned();
        chain!(owned.by_ref(), v.0, v.1.0);
        std::mem::forget(owned);
        std::mem::forget(b);
    }
}
