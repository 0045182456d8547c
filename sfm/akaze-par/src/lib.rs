// As the akaze shim, but with the crate's `rayon` feature on.
include!("/repo/akaze/src/lib.rs");
