//! `#[tokio::main]` makes the program's main function the start of each scenario.
pub use entry::main;
pub use warp::world;
