#![recursion_limit = "8192"]
#[path = "../../harness/src/rt.rs"]
pub mod rt;
#[macro_use]
pub mod mock;

/// The derive macro's own source; see build.rs.
pub mod derive {
    #[allow(unused_imports)]
    use crate::mock::{darling, proc_macro, proc_macro2, quote, syn};
    #[allow(unused_imports)]
    use crate::mock::std_vec::{String, Vec};
    #[allow(unused_imports)]
    use crate::mock_vec as vec;
    /// The text of messages is not looked at.
    #[allow(unused_macros)]
    macro_rules! format {
        ($($t:tt)*) => {
            String::new()
        };
    }
    include!(concat!(env!("OUT_DIR"), "/derive.rs"));
}

#[cfg(feature = "c23")]
pub mod c23;

/// Every harness by name, for native replay.
#[cfg(not(kani))]
pub fn tables() -> Vec<(&'static str, fn())> {
    let mut all: Vec<&'static [&'static [&'static [(&'static str, fn())]]]> = vec![];
    #[cfg(feature = "c23")]
    all.push(c23::TABLE);
    all.into_iter().flatten().flat_map(|x| x.iter()).flat_map(|x| x.iter()).copied().collect()
}
