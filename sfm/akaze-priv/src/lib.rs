// As the akaze shim, plus a child module that can reach a private part.
include!("/repo/akaze/src/lib.rs");

#[path = "hooks.rs"]
pub mod hooks;
