//! what the threads of C31 do, compiled (like the library itself) with a call at every basic block
#![allow(dead_code)]
#[path = "../../../src/model.rs"]
pub mod model;
#[path = "../../../src/tasks.rs"]
pub mod tasks;
