// The crate under test, compiled from /repo against stand-ins for the dependencies that are missing here.
include!("/repo/akaze/src/lib.rs");
