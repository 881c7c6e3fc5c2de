//! The seam between symbolic execution (Kani/CBMC) and native replay.
//!
//! Under `cfg(kani)`, `any()` is a fresh symbolic value and `check!` is a proof obligation. In a
//! native build the same harness code runs on the concrete values of a counterexample.

#[cfg(kani)]
mod imp {
    pub trait Raw: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Raw for T {}
    #[inline(always)]
    pub fn any<T: Raw>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        static VALS: RefCell<std::collections::VecDeque<Vec<u8>>> = Default::default();
    }
    pub fn load(vals: Vec<Vec<u8>>) {
        VALS.with(|v| *v.borrow_mut() = vals.into());
    }
    pub trait Raw: Sized {
        fn raw(b: &[u8]) -> Self;
    }
    macro_rules! raw { ($($t:ty)*) => { $(impl Raw for $t {
        fn raw(b: &[u8]) -> Self {
            let mut a = [0u8; std::mem::size_of::<$t>()];
            for (i, x) in b.iter().enumerate() {
                if i < a.len() { a[i] = *x }
            }
            <$t>::from_le_bytes(a)
        }
    })* } }
    raw!(u8 u16 u32 u64 u128 usize);
    impl Raw for bool {
        fn raw(b: &[u8]) -> Self {
            b.first().map_or(false, |x| *x != 0)
        }
    }
    pub fn any<T: Raw>() -> T {
        T::raw(&VALS.with(|v| v.borrow_mut().pop_front()).unwrap_or_default())
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY: assumption not met");
            std::process::exit(77);
        }
    }
}
pub use imp::*;

/// An obligation: the condition holds for every value of the symbolic inputs.
#[cfg(kani)]
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {
        assert!($c, $m)
    };
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {
        if !$c {
            panic!("{}", $m)
        }
    };
}

/// Reachability witness: must come back satisfiable, or the harness is vacuous.
#[macro_export]
macro_rules! reach {
    () => {
        #[cfg(kani)]
        kani::cover!(true, "REACH");
    };
    ($c:expr) => {
        #[cfg(kani)]
        kani::cover!($c, "REACH");
    };
}

/// The expression must not return: every path through it panics.
#[macro_export]
macro_rules! must_panic {
    ($e:expr, $m:literal) => {{
        #[cfg(kani)]
        {
            kani::cover!(true, "REACH");
            let _r = $e;
            assert!(false, concat!("RETURNED: ", $m));
        }
        #[cfg(not(kani))]
        {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _r = $e;
            }));
            if r.is_ok() {
                panic!(concat!("RETURNED: ", $m));
            }
        }
    }};
}

/// Up to ten times `$b`, written out so that no unwinding bound is spent on the harness itself.
#[macro_export]
macro_rules! repeat {
    ($n:expr, $b:block) => {{
        let n = $n;
        if n > 0 $b
        if n > 1 $b
        if n > 2 $b
        if n > 3 $b
        if n > 4 $b
        if n > 5 $b
        if n > 6 $b
        if n > 7 $b
        if n > 8 $b
        if n > 9 $b
        check!(n <= 10, "harness: too many repetitions");
    }};
}

/// `inst!(group {f @ unwind, ...} Shape: W, ...)` instantiates the generic harnesses
/// `f::<Shape, W>` for every shape of the list, as `group::Shape::f`.
#[macro_export]
macro_rules! inst {
    ($group:ident $fns:tt $($shape:ident : $w:tt),* $(,)?) => {
        pub mod $group {
            $( $crate::inst_one!($fns $shape $w); )*
            #[cfg(not(kani))]
            pub const TABLE: &[&[(&str, fn())]] = &[$($shape::TABLE),*];
        }
    };
}
#[macro_export]
macro_rules! inst_one {
    ({$($f:ident @ $u:tt),* $(,)?} $shape:ident $w:tt) => {
        #[allow(non_snake_case)]
        pub mod $shape {
            $(
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($u))]
                pub fn $f() { super::super::$f::<super::super::$shape, $w>() }
            )*
            #[cfg(not(kani))]
            pub const TABLE: &[(&str, fn())] = &[
                $((concat!(module_path!(), "::", stringify!($f)), $f as fn())),*
            ];
        }
    };
}
/// `plain!(group f @ unwind, ...)`: non-generic harnesses, as `group::f`.
#[macro_export]
macro_rules! plain {
    ($group:ident $($f:ident @ $u:tt),* $(,)?) => {
        pub mod $group {
            $(
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($u))]
                pub fn $f() { super::$f() }
            )*
            #[cfg(not(kani))]
            pub const TABLE: &[&[(&str, fn())]] = &[&[
                $((concat!(module_path!(), "::", stringify!($f)), $f as fn())),*
            ]];
        }
    };
}
/// `groups!(a, b)`: the module's harness groups, for native replay.
#[macro_export]
macro_rules! groups {
    ($($g:ident),* $(,)?) => {
        #[cfg(not(kani))]
        pub const TABLE: &[&[&[(&str, fn())]]] = &[$($g::TABLE),*];
    };
}
