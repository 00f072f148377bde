//! Routes: every way a value can get into a bag.
//!
//! Each macro takes a value and something to call with the bag it ends up in.

/// For types that `sval` supports.
macro_rules! by_sval {
    (usize, $e:expr) => {};
    (isize, $e:expr) => {};
    ($t:tt, $e:expr) => {
        #[cfg(feature = "has-sval")]
        $e;
    };
}

/// The standard conversions.
macro_rules! via_from {
    ($v:ident, $f:expr) => {{
        let f = $f;
        f(&ValueBag::from($v));
        f(&ValueBag::from(&$v));
        f(&ValueBag::from(Some($v)));
        f(&ValueBag::from_option(Some($v)));
    }};
}

/// Captured by its type.
macro_rules! via_capture {
    ($v:ident: $t:tt, $f:expr) => {{
        let f = $f;
        f(&ValueBag::try_capture::<$t>(&$v).expect("a primitive wasn't captured"));
        f(&ValueBag::capture_debug(&$v));
        f(&ValueBag::capture_display(&$v));
        by_sval!($t, f(&ValueBag::capture_sval2(&$v)));
        #[cfg(feature = "has-serde")]
        f(&ValueBag::capture_serde1(&$v));
    }};
}

/// Captured by its type, when it's optional.
macro_rules! via_option {
    ($v:ident: $t:tt, $f:expr) => {{
        let f = $f;
        let o: Option<$t> = Some($v);
        f(&ValueBag::try_capture(&o).expect("an optional primitive wasn't captured"));
        f(&ValueBag::capture_debug(&o));
        by_sval!($t, f(&ValueBag::capture_sval2(&o)));
        #[cfg(feature = "has-serde")]
        f(&ValueBag::capture_serde1(&o));
    }};
}

/// Deferred.
macro_rules! via_fill {
    ($v:expr, $f:expr) => {{
        let f = $f;
        f(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_any($v)));
    }};
}

/// Streamed through `sval`.
macro_rules! via_sval {
    ($v:ident, $f:expr) => {{
        let f = $f;
        f(&ValueBag::from_sval2(&$v));
        f(&ValueBag::from_dyn_sval2(&$v));
        f(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_sval2($v)));
    }};
}

/// Serialized through `serde`.
macro_rules! via_serde {
    ($v:ident, $f:expr) => {{
        let f = $f;
        f(&ValueBag::from_serde1(&$v));
        f(&ValueBag::from_fill(&|slot: value_bag::fill::Slot| slot.fill_serde1($v)));
    }};
}

/// Captured by its type, owned.
macro_rules! via_shared {
    ($v:ident: $t:tt, $f:expr) => {{
        let f = $f;
        f(&ValueBag::try_capture_owned::<$t>(&$v).expect("a primitive wasn't captured"));
        f(&ValueBag::capture_shared_debug($v));
        f(&ValueBag::capture_shared_display($v));
        by_sval!($t, f(&ValueBag::capture_shared_sval2($v)));
        #[cfg(feature = "has-serde")]
        f(&ValueBag::capture_shared_serde1($v));
    }};
}

/// Buffered.
macro_rules! via_owned {
    ($b:expr, $f:expr) => {{
        let f = $f;
        let o = $b.to_owned();
        f(&o.by_ref());
        let o = o.into_shared();
        f(&o.by_ref());
        let o = $b.to_shared();
        f(&o.clone().by_ref());
    }};
}
