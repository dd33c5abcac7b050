//! C09: sliding preserves the statistics of every surviving context.
#[allow(dead_code)]
#[path = "../contexts.rs"]
mod contexts;
#[allow(dead_code)]
#[path = "../window_checks.rs"]
mod window_checks;
use contexts::Aspect;
fn main() { window_checks::run("C09", Aspect::Statistics) }
