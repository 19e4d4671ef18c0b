//@include prelude.rs
//@include rbytes.rs
//@include comp.rs
//@include roundtrip.rs
//@include poly.rs
//@include misc.rs
} // mod rbytes
}
fn main() {}
