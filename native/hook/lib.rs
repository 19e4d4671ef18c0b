// Compiled inside the oxyroot crate (cfg oxyroot_verif): the contracts of the Verus units in
// executable form, run on the real compiled functions over directed, boundary and random inputs.
include!(concat!(env!("OXYROOT_VERIF_DIR"), "/common.rs"));
macro_rules! props { ($($m:ident $f:literal),*) => { $(
    #[cfg(vp = $f)]
    pub mod $m { use super::*; include!(concat!(env!("OXYROOT_VERIF_DIR"), "/", stringify!($m), ".rs")); }
)*
    fn dispatch(prop: &str, x: &mut Ctx) -> bool {
        match prop { $( #[cfg(vp = $f)] $f => { $m::run(x); true } )* _ => false }
    }
} }
include!(concat!(env!("OXYROOT_VERIF_DIR"), "/list.rs"));
