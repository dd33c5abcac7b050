//! C08: sliding keeps the context tree complete, bounded and reusable.
#[allow(dead_code)]
#[path = "../contexts.rs"]
mod contexts;
#[allow(dead_code)]
#[path = "../window_checks.rs"]
mod window_checks;
use contexts::Aspect;
fn main() { window_checks::run("C08", Aspect::Shape) }
