//! C21: borrowed text stays borrowed for as long as its owner lives.

use crate::nd::any;
use crate::obs::*;
use value_bag::{fill::Slot, ValueBag};

/// A bag yields the very text.
#[inline(always)]
fn very(b: &ValueBag, want: &str) {
    let got = b.to_borrowed_str().expect("text isn't borrowed");
    assert!(got.as_ptr() == want.as_ptr() && got.len() == want.len(), "other text is borrowed");
    #[cfg(feature = "has-alloc")]
    match b.to_str().expect("text was lost") {
        std::borrow::Cow::Borrowed(got) => assert!(got.as_ptr() == want.as_ptr() && got.len() == want.len(), "other text is borrowed"),
        std::borrow::Cow::Owned(s) => {
            std::mem::forget(s);
            panic!("text was copied")
        }
    }
    let log = visited(b);
    assert!(log.calls == 1 && log.kind == Kind::BorrowedStr, "text isn't visited as borrowed");
    assert!(log.ptr == want.as_ptr(), "other text is visited");
}

/// A bag holds text it can't lend for as long as the caller's.
#[inline(always)]
fn copied(b: &ValueBag, want: &str) {
    assert!(b.to_borrowed_str().is_none(), "text that isn't borrowed was");
    #[cfg(feature = "has-alloc")]
    match b.to_str().expect("text was lost") {
        std::borrow::Cow::Borrowed(_) => panic!("text that isn't borrowed was"),
        std::borrow::Cow::Owned(s) => {
            same_str(&s, want);
            std::mem::forget(s);
        }
    }
    let log = visited(b);
    assert!(log.calls == 1 && log.kind == Kind::Str, "text that isn't borrowed was visited as borrowed");
}

/// The same text, and what's borrowed or cloned from it.
macro_rules! borrows {
    ($b:expr, $s:expr) => {
        match &$b {
            b => {
                very(b, $s);
                very(&b.by_ref(), $s);
                very(&b.clone(), $s);
            }
        }
    };
}

/// Text put in each way that borrows.
macro_rules! ways {
    ($s:ident) => {
        borrows!(ValueBag::from($s), $s);
        borrows!(ValueBag::from(&$s), $s);
        very(&ValueBag::from(Some($s)), $s);
        very(&ValueBag::from_option(Some($s)), $s);
        very(&ValueBag::try_capture(&$s).expect("text wasn't captured"), $s);
        very(&ValueBag::capture_debug(&$s), $s);
        very(&ValueBag::capture_display(&$s), $s);
        let o = Some($s);
        very(&ValueBag::try_capture(&o).expect("text wasn't captured"), $s);
        match <&str>::try_from(ValueBag::from($s)) {
            Ok(got) => assert!(got.as_ptr() == $s.as_ptr() && got.len() == $s.len(), "other text is borrowed"),
            Err(_) => panic!("text isn't borrowed"),
        }
    };
}

harnesses! {
    /// Every ASCII string of up to 3 bytes.
    text [6] ("min" "own"; "alo" "inl" "big" "all") {
        let v = Ascii::<2>::any();
        let s = v.get_static();
        ways!(s);
        let v = Ascii::<3>::any();
        let s = v.get_static();
        borrows!(ValueBag::from(s), s);
        let v = Ascii::<1>::any();
        let s = v.get_static();
        borrows!(ValueBag::from(s), s);
        // Part of a string.
        let v = Ascii::<3>::any();
        let s = &v.get_static()[1..2];
        borrows!(ValueBag::from(s), s);
        let s = &v.get_static()[1..1];
        borrows!(ValueBag::from(s), s);
    }

    /// Every character outside of ASCII.
    unicode [6] ("min"; "own" "all") {
        let c: char = any();
        crate::nd::assume(c.len_utf8() == 3);
        let mut b = [0; 4];
        let s: &str = c.encode_utf8(&mut b);
        borrows!(ValueBag::from(s), s);
    }

    /// Text owned by a string.
    string [6] ("own"; "all") {
        let v = Ascii::<2>::any();
        let s = String::from(v.get());
        borrows!(ValueBag::from(&s), s.as_str());
        very(&ValueBag::from_option(Some(&s)), s.as_str());
        very(&ValueBag::capture_display(&s), s.as_str());
        very(&ValueBag::try_capture(&s).expect("text wasn't captured"), s.as_str());
        std::mem::forget(s);
    }

    /// Text that's deferred.
    fill [6] ("min" "own"; "alo" "all") {
        let v = Ascii::<2>::any();
        let s = v.get_static();
        borrows!(ValueBag::from_fill(&|slot: Slot| slot.fill_any(s)), s);
    }

    /// Text that's formatted isn't the caller's.
    formatted [8] ("alo"; "own" "all") {
        let v = Obj::any();
        assert!(ValueBag::from_display(&v).to_borrowed_str().is_none(), "formatted text was borrowed");
        assert!(ValueBag::from_debug(&v).to_borrowed_str().is_none(), "formatted text was borrowed");
        assert!(ValueBag::from(any::<char>()).to_borrowed_str().is_none(), "a character was borrowed as text");
    }

    /// Text held by an owned copy is lent by it.
    owned [8] ("alo"; "own" "inl" "big" "all") {
        let v = Ascii::<2>::any();
        let o = ValueBag::from(v.get()).to_owned();
        {
            let b = o.by_ref();
            let got = b.to_borrowed_str().expect("text isn't borrowed");
            assert!(got.as_ptr() != v.get().as_ptr(), "a copy lends the original");
            same_str(got, v.get());
            let again = b.clone().to_borrowed_str().expect("text isn't borrowed");
            assert!(got.as_ptr() == again.as_ptr(), "text was copied");
        }
        std::mem::forget(o);
    }

    /// Text through `sval`.
    sval [8] ("als"; "alf" "all") {
        let v = Ascii::<2>::any();
        let s = v.get_static();
        borrows!(ValueBag::capture_sval2(&s), s);
        very(&ValueBag::from_sval2(&s), s);
        very(&ValueBag::from_dyn_sval2(&s), s);
        copied(&ValueBag::from_fill(&|slot: Slot| slot.fill_sval2(s)), s);
    }

    /// Text through `serde`, which can't borrow, unless it's captured.
    serde [8] ("ald"; "alf" "all") {
        let v = Ascii::<2>::any();
        let s = v.get_static();
        borrows!(ValueBag::capture_serde1(&s), s);
        copied(&ValueBag::from_serde1(&s), s);
    }

    /// Text in a sequence.
    sequences [6] ("alo"; "own" "all") {
        let v = Ascii::<1>::any();
        let w = Ascii::<2>::any();
        let s = [v.get_static(), w.get_static()];
        let b = ValueBag::from_seq_slice(&s);
        let items = b.to_borrowed_str_seq::<Items<&str, 3>>().expect("a sequence was lost");
        assert!(items.len == 2, "a sequence has another number of items");
        assert!(items.at[0].expect("text isn't borrowed").as_ptr() == s[0].as_ptr(), "other text is borrowed");
        assert!(items.at[0].expect("text isn't borrowed").len() == 1, "other text is borrowed");
        assert!(items.at[1].expect("text isn't borrowed").as_ptr() == s[1].as_ptr(), "other text is borrowed");
        assert!(items.at[1].expect("text isn't borrowed").len() == 2, "other text is borrowed");
    }
}
