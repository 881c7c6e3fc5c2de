pub mod rt;
pub mod shapes;
pub mod mock;

macro_rules! modules {
    ($($feat:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $feat)] pub mod $m;)*
        /// Every harness by name, for native replay.
        #[cfg(not(kani))]
        pub fn tables() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut all: Vec<&'static [&'static [&'static [(&'static str, fn())]]]> = vec![];
            $(#[cfg(feature = $feat)] all.push($m::TABLE);)*
            all.into_iter().flatten().flat_map(|x| x.iter()).flat_map(|x| x.iter()).copied().collect()
        }
    };
}
modules! {
    "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08,
    "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16,
    "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c24" c24,
}
