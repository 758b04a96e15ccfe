//! A type-level witness: this module compiles only when a pipeline can be shared between threads.
use chanoma::{Chanoma, Table, TableBuilder};

fn shared<T: Send + Sync + 'static>() {}

pub fn shareable() {
    shared::<Chanoma>();
    shared::<Table>();
    shared::<TableBuilder>();
}
