extern crate harness_queue as harness;
include!("../../harness/src/replay.rs");
