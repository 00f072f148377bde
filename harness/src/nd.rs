//! Nondeterministic inputs.
//!
//! Under the model checker every value drawn here is unconstrained. Natively the same calls
//! read the bytes of a counterexample back, so one harness body serves both as the query and
//! as its replay.

#[cfg(not(kani))]
use std::cell::RefCell;

#[cfg(not(kani))]
thread_local! {
    static BYTES: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0));
}

/// Load the bytes of a counterexample.
#[cfg(not(kani))]
pub fn load(bytes: Vec<u8>) {
    BYTES.with(|b| *b.borrow_mut() = (bytes, 0));
}

#[cfg(not(kani))]
pub fn take<const N: usize>() -> [u8; N] {
    BYTES.with(|b| {
        let mut b = b.borrow_mut();
        let mut out = [0; N];
        for o in out.iter_mut() {
            let at = b.1;
            // Inputs the solver left out are unconstrained: any value will do.
            *o = b.0.get(at).copied().unwrap_or(0);
            b.1 += 1;
        }
        out
    })
}

pub trait Nd: Sized {
    fn nd() -> Self;
}

macro_rules! nd_int {
    ($($t:ty)*) => {$(
        impl Nd for $t {
            #[cfg(kani)]
            #[inline(always)]
            fn nd() -> Self {
                kani::any()
            }

            #[cfg(not(kani))]
            fn nd() -> Self {
                <$t>::from_ne_bytes(take())
            }
        }
    )*};
}

nd_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

impl<const N: usize> Nd for [u8; N] {
    #[cfg(kani)]
    #[inline(always)]
    fn nd() -> Self {
        kani::any()
    }

    #[cfg(not(kani))]
    fn nd() -> Self {
        take()
    }
}

impl Nd for bool {
    fn nd() -> Self {
        let v = u8::nd();
        assume(v < 2);
        v == 1
    }
}

impl Nd for char {
    fn nd() -> Self {
        let v = u32::nd();
        assume(v < 0x11_0000 && !(v >= 0xD800 && v < 0xE000));
        // SAFETY: `v` is a scalar value.
        unsafe { char::from_u32_unchecked(v) }
    }
}

impl Nd for f32 {
    fn nd() -> Self {
        f32::from_bits(u32::nd())
    }
}

impl Nd for f64 {
    fn nd() -> Self {
        f64::from_bits(u64::nd())
    }
}

impl<T: Nd> Nd for Option<T> {
    fn nd() -> Self {
        let some = bool::nd();
        let v = T::nd();
        if some {
            Some(v)
        } else {
            None
        }
    }
}

#[inline(always)]
pub fn any<T: Nd>() -> T {
    T::nd()
}

#[cfg(kani)]
#[inline(always)]
pub fn assume(cond: bool) {
    kani::assume(cond)
}

/// Exit code of a replay whose inputs are outside the harness's assumptions.
#[cfg(not(kani))]
pub const OUTSIDE: i32 = 77;

#[cfg(not(kani))]
pub fn assume(cond: bool) {
    if !cond {
        eprintln!("replay: input outside the harness's assumptions");
        std::process::exit(OUTSIDE);
    }
}

/// A value in `0..n`.
pub fn below(n: usize) -> usize {
    let v = u8::nd() as usize;
    assume(v < n);
    v
}
