pub use expander_shim::*;
