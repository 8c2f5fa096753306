#[path = "../../harness/src/sx.rs"]
pub mod sx;
pub mod queue;

harnesses! {
    h_queue => queue::queue,
}
