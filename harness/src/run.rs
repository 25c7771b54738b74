//! Running the code under test without letting it take the harness down.
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Duration;

static AT: AtomicU64 = AtomicU64::new(0);
static STEP: AtomicU64 = AtomicU64::new(0);
static WHAT: Mutex<String> = Mutex::new(String::new());

/// Announce the case about to be run.  Should the process die or hang, the
/// driver reads the case from the progress file.
pub struct Progress {
    file: Option<std::fs::File>,
}

impl Progress {
    pub fn new(path: Option<&str>, limit: Duration) -> Progress {
        std::panic::set_hook(Box::new(|_| {}));
        std::thread::spawn(move || {
            let mut last = (0, 0);
            loop {
                std::thread::sleep(limit);
                let now = (AT.load(Relaxed), STEP.load(Relaxed));
                if now == last && now.0 != 0 && now.0 != u64::MAX {
                    println!("HANG {}", now.0);
                    std::process::exit(97);
                }
                last = now;
            }
        });
        Progress {
            file: path.map(|p| std::fs::File::create(p).unwrap()),
        }
    }

    pub fn at(&self, index: u64) {
        use std::os::unix::fs::FileExt;
        AT.store(index + 1, Relaxed);
        STEP.fetch_add(1, Relaxed);
        if let Some(f) = &self.file {
            f.write_all_at(&index.to_le_bytes(), 0).unwrap();
        }
    }

    pub fn done(&self) {
        AT.store(u64::MAX, Relaxed);
    }
}

/// The outcome of f; a panic is Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn note(s: &str) {
    *WHAT.lock().unwrap() = s.to_string();
}
