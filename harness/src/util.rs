use std::cell::RefCell;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::sync::OnceLock;

pub static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
static ROOT: OnceLock<Mutex<Option<tempfile::TempDir>>> = OnceLock::new();
static CNT: AtomicU64 = AtomicU64::new(0);

thread_local! { static PANIC: RefCell<Option<String>> = RefCell::new(None); }
static OTHER: Mutex<Option<String>> = Mutex::new(None);

pub fn init() {
    RT.set(tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap()).ok();
    let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let t = tempfile::Builder::new().prefix("vh").tempdir_in(&base).or_else(|_| tempfile::tempdir()).unwrap();
    ROOT.set(Mutex::new(Some(t))).ok();
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<crate::ctx::Stop>().is_some() { return }
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let m = format!("{} at {}", m, info.location().map(|l| l.to_string()).unwrap_or_default());
        if std::env::var("VH_BT").is_ok() { eprintln!("{}\n{}", m, std::backtrace::Backtrace::force_capture()); }
        *OTHER.lock().unwrap() = Some(m.clone());
        PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_none() { *p = Some(m) } });
    }));
}
pub fn take_panic() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}
pub fn cleanup() { ROOT.get().unwrap().lock().unwrap().take(); }

/// a fresh scratch directory below the run's own temporary directory
pub struct Scratch(pub PathBuf);
pub fn scratch() -> Scratch {
    let p = ROOT.get().unwrap().lock().unwrap().as_ref().unwrap().path().join(format!("c{}", CNT.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap();
    Scratch(p)
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

pub fn block<F: std::future::Future>(f: F) -> F::Output { RT.get().unwrap().block_on(f) }

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234_5678);
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j) } }
}
pub fn nm(n: [u32; 5]) -> String { n.iter().map(|x| format!("{:08x}", x)).collect() }
