//! Running the command-line tools built from /repo in scratch directories.
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("mc_{}_{}", tag, std::process::id()));
        let _ = std::fs::create_dir_all(&p);
        Scratch(p)
    }
    pub fn file(&self, bytes: &[u8]) -> Result<TempFile, String> {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = self.0.join(format!("f{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::write(&p, bytes).map_err(|e| format!("scratch file: {}", e))?;
        Ok(TempFile(p))
    }
    pub fn remove(&self) { let _ = std::fs::remove_dir_all(&self.0); }
}

pub struct TempFile(pub PathBuf);
impl Drop for TempFile { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }

pub fn tool(name: &str) -> PathBuf { PathBuf::from(format!("{}/target/tools/release/{}", crate::verif_dir(), name)) }

/// Standard output of a command that must succeed.
pub fn output(cmd: &mut Command) -> Result<String, String> {
    let o = cmd.output().map_err(|e| format!("cannot run {:?}: {}", cmd, e))?;
    if !o.status.success() {
        return Err(format!("the tool fails with {}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()));
    }
    String::from_utf8(o.stdout).map_err(|_| "output is not text".to_string())
}
