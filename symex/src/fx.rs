pub use rustc_data_structures::fx::{FxHashMap, FxHashSet};
