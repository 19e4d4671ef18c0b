pub(crate) use super::{FreeList, FreeSegments};
