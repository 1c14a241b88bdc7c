pub mod engine;
pub mod panics;
pub mod vclock;

pub use engine::{Arm, CaseResult, GenArm, Property};

/// Runs a future to completion on a fresh single-threaded runtime in virtual time.
pub fn block_on<T>(epoch_ns: i64, fut: impl std::future::Future<Output = T>) -> T {
    vclock::reset(epoch_ns);
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .max_blocking_threads(16)
        .build()
        .unwrap();
    let out = rt.block_on(fut);
    drop(rt);
    out
}
