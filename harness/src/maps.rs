//! The maps bm uses in this build.
#[cfg(not(feature = "nostd"))]
pub use std::collections::{HashMap, HashSet};
#[cfg(feature = "nostd")]
pub use std::collections::{BTreeMap as HashMap, BTreeSet as HashSet};
