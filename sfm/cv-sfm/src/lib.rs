include!("/repo/cv-sfm/src/lib.rs");

// The checks are inside the crate because the data store and most of its operations are private.
pub mod checks;
