// The Python binding, as it is in the tree, next to reference functions for it.  Nothing here is ever run.
include!("/repo/bindings/python3/src/lib.rs");

#[cfg(not(no_spec))]
#[path = "spec.rs"]
mod spec;
