//@include prelude.rs
//@include rbytes.rs
//@include comp.rs
//@include roundtrip.rs
} // mod rbytes
//@include root.rs
//@include chrono.rs
//@include io.rs
//@include rcompress.rs
pub mod rvers {
//@const oxyroot/src/rvers.rs KEY
//@const oxyroot/src/rvers.rs UUID
//@const oxyroot/src/rvers.rs ROOT
//@const oxyroot/src/rvers.rs DIRECTORY
} // mod rvers
pub mod riofs {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use super::base::*;
use super::rbytes::*;
use super::root::traits;
use super::root::traits::{Named, Object, tstring_sizeof, datime_sizeof, str_size};
use super::chrono::*;
use super::uuid::{Uuid, axiom_uuid};
use super::io::*;
use super::rcompress;
use super::rvers;
pub mod consts {
//@const oxyroot/src/riofs/consts.rs *
} // mod consts
pub use consts::*;
//@include datime.rs
//@include blocks.rs
//@include key.rs
//@include file.rs
//@include keyfile.rs
//@include dir.rs
//@include write.rs
//@include ffile.rs
} // mod riofs
}
fn main() {}
