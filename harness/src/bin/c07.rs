//! C07: sliding-window contexts always tell the truth about the window.
#[allow(dead_code)]
#[path = "../contexts.rs"]
mod contexts;
#[allow(dead_code)]
#[path = "../window_checks.rs"]
mod window_checks;
use contexts::Aspect;
fn main() { window_checks::run("C07", Aspect::Truth) }
